"""A catalog of the operations of the library with generators of arguments.

An entry makes a case {'f': name, 'tt': {key: description}, 'arr': {key:
description of an array}, 'p': {parameters}} and calls the operation on it.
Nothing is said here about the right answers: the catalog is for properties
about all operations (compilation, dtypes, purity).
"""
import numpy as np
import tensorflow as tf
import t3f
from harness import core, gen

ENTRIES = {}
# Cores without zeros: a tangent space at a degenerate point is not unique.
MILD = ('normal', 'normal', 'pos')


class Entry(object):

  def __init__(self, name, make, call, dense_only):
    self.name, self.make, self.call = name, make, call
    self.static_only = dense_only


def entry(name, make, static_only=False):
  def deco(call):
    assert name not in ENTRIES, name
    ENTRIES[name] = Entry(name, make, call, static_only)
    return call
  return deco


def gen_case(draw, names=None):
  name = gen.pick(draw, *(names or sorted(ENTRIES)))
  case = ENTRIES[name].make(draw)
  case['f'] = name
  for k in ('tt', 'arr', 'p'):
    case.setdefault(k, {})
  return case


def array(spec):
  """NumPy array (or nested list) of a case."""
  rng = np.random.RandomState(spec['seed'] % 2 ** 32)
  if spec.get('int'):
    x = np.stack([rng.randint(0, k, size=spec['shape'][:-1])
                  for k in spec['int']], axis=-1)
  else:
    x = rng.randn(*spec['shape']).astype(spec['dtype'])
    if spec.get('spd'):
      x = x @ x.T + np.eye(len(x), dtype=x.dtype)
  return x


def arr(draw, shape, dtype):
  return dict(shape=list(shape), dtype=dtype, seed=gen.seed(draw))


def arguments(case):
  """TT-arguments (core.Arg) and arrays of a case."""
  tts = {k: core.Arg(s) for k, s in case['tt'].items()}
  arrays = {k: array(s) for k, s in case['arr'].items()}
  for k in case['p'].get('kron', ()):
    # Well conditioned positive definite factors.
    x = tts[k]
    for i, c in enumerate(x.cores):
      e = c.reshape((-1,) + c.shape[-3:-1]).astype(np.float64)
      g = np.matmul(e, np.swapaxes(e, 1, 2))
      g = g / max(1e-9, np.abs(g).max()) + np.eye(g.shape[-1])
      x.cores[i] = g.reshape(c.shape).astype(c.dtype)
    x.tt = core.make_tt(x.cores, x.bs is not None)
    x.q = core.ref_of_cores(x.cores, True, x.bs is not None, x.dtype).q
  return tts, arrays


def call(case, tts, arrays):
  """Calls the operation on TT-objects and arrays."""
  a = dict(tts)
  a.update(arrays)
  return ENTRIES[case['f']].call(a, case['p'])


# Functions of the second degree of one argument.
QUADRATIC = ('norm2', 'norm2-diff', 'gram', 'l2', 'cores-reg', 'hessian')


def scale_of(case, tts, arrays):
  res = 10.0
  for x in tts.values():
    q = max(1.0, float(np.max(x.q)))
    res *= q ** 2 if case['f'] in QUADRATIC else q
  for x in arrays.values():
    if x.dtype.kind == 'f':
      res *= max(1.0, float(np.linalg.norm(x)))
  return res


def flatten(x):
  """Results as a flat list of TT-objects and tensors."""
  if isinstance(x, (list, tuple)):
    return [z for y in x for z in flatten(y)]
  return [] if x is None else [x]


# ------------------------------------------------------------------- unary


def _one(kind='any', bs='any', fills=gen.FILLS, maxr=3, size=100, square=False,
         mind=1, maxd=5):
  def make(draw):
    return dict(tt=dict(x=gen.tt(draw, kind, bs=bs, fills=fills, maxr=maxr,
                                 size=size, square=square, mind=mind,
                                 maxd=maxd)))
  return make


def _unary(name, fn, **kw):
  entry(name, _one(**kw))(lambda a, p: fn(a['x']))


_unary('full', lambda x: t3f.full(x))
_unary('round', lambda x: t3f.round(x))
_unary('orthogonalize', lambda x: t3f.orthogonalize_tt_cores(x))
_unary('orthogonalize-left',
       lambda x: t3f.orthogonalize_tt_cores(x, left_to_right=False), bs='no')
_unary('renormalize', lambda x: t3f.renormalize_tt_cores(x), fills=MILD)
_unary('neg', lambda x: -x)
_unary('norm2', lambda x: t3f.frobenius_norm_squared(x))
_unary('norm2-diff',
       lambda x: t3f.frobenius_norm_squared(x, differentiable=True))
_unary('norm', lambda x: t3f.frobenius_norm(x), fills=MILD)
_unary('norm-diff', lambda x: t3f.frobenius_norm(x, differentiable=True),
       fills=MILD)
_unary('ones_like', lambda x: t3f.ones_like(x), bs='no')
_unary('zeros_like', lambda x: t3f.zeros_like(x), bs='no')
_unary('expand', lambda x: t3f.expand_batch_dim(x))
_unary('squeeze', lambda x: t3f.squeeze_batch_dim(x), bs=1)
_unary('transpose', lambda x: t3f.transpose(x), kind='matrix')
_unary('gram', lambda x: t3f.gram_matrix(x), bs='yes')
_unary('l2', lambda x: t3f.l2_regularizer(0.5)(x))
_unary('cores-reg', lambda x: t3f.cores_regularizer(
    lambda c: tf.reduce_sum(c ** 2), 0.5)(x))
_unary('shapes', lambda x: [t3f.shape(x), t3f.raw_shape(x), t3f.tt_ranks(x)])
_unary('lazy-shapes', lambda x: [t3f.lazy_shape(x), t3f.lazy_raw_shape(x),
                                 t3f.lazy_tt_ranks(x)])
_unary('batch_size', lambda x: [t3f.batch_size(x), t3f.lazy_batch_size(x)],
       bs='yes')
_unary('left-frame-copy', lambda x: t3f.riemannian.deltas_to_tangent_space(
    t3f.tangent_space_to_deltas(t3f.project(x, x)), x), bs='no', fills=MILD)


def _make_scale(draw):
  case = _one()(draw)
  case['p'] = dict(c=gen.pick(draw, 2.0, -0.5, 3, 0.1),
                   how=gen.pick(draw, 'left', 'right', 'tensor'))
  return case


@entry('scale', _make_scale)
def _scale(a, p):
  x, c = a['x'], p['c']
  if p['how'] == 'left':
    return c * x
  if p['how'] == 'right':
    return x * c
  return t3f.multiply(x, tf.constant(c, x.dtype))


def _make_cast(draw):
  case = _one()(draw)
  case['p'] = dict(to=gen.pick(draw, 'float32', 'float64'))
  return case


@entry('cast', _make_cast)
def _cast(a, p):
  return t3f.cast(a['x'], tf.as_dtype(p['to']))


def _cap_list(draw, d):
  if gen.flag(draw):
    return gen.integer(draw, 1, 3)
  return [1] + [gen.integer(draw, 1, 3) for _ in range(d - 1)] + [1]


def _make_cut(draw):
  case = _one(fills=('normal',), maxr=5, mind=2)(draw)
  case['p'] = dict(cap=_cap_list(draw, len(case['tt']['x']['n'])))
  return case


@entry('round-cut', _make_cut)
def _round_cut(a, p):
  return t3f.round(a['x'], max_tt_rank=p['cap'])


def _make_decompose(draw):
  n = gen.modes(draw, size=120, mind=1, maxd=4)
  cap = gen.pick(draw, None, 3)
  if cap is not None:
    cap = _cap_list(draw, len(n))
  return dict(arr=dict(y=arr(draw, n, gen.dtype(draw))), p=dict(cap=cap))


@entry('to_tt_tensor', _make_decompose, static_only=True)
def _to_tt(a, p):
  kw = {} if p['cap'] is None else {'max_tt_rank': p['cap']}
  return t3f.to_tt_tensor(a['y'], **kw)


def _make_decompose_matrix(draw):
  n, m = gen.matrix_modes(draw, size=120, maxd=3)
  cap = gen.pick(draw, None, 3)
  if cap is not None:
    cap = _cap_list(draw, len(n))
  return dict(arr=dict(y=arr(draw, [core.prod(n), core.prod(m)],
                             gen.dtype(draw))),
              p=dict(shape=[n, m], cap=cap))


@entry('to_tt_matrix', _make_decompose_matrix, static_only=True)
def _to_tt_matrix(a, p):
  kw = {} if p['cap'] is None else {'max_tt_rank': p['cap']}
  return t3f.to_tt_matrix(a['y'], p['shape'], **kw)


def _make_index(draw):
  case = _one('tensor')(draw)
  x = case['tt']['x']
  sizes = ([] if x['bs'] is None else [x['bs']]) + x['n']
  idx = []
  for k, size in enumerate(sizes):
    if gen.flag(draw):
      idx.append(gen.integer(draw, 0, size - 1))
    else:
      lo = gen.integer(draw, 0, size - 1)
      idx.append([lo, gen.integer(draw, lo + 1, size)])
  if not any(isinstance(i, list) for i in idx[0 if x['bs'] is None else 1:]):
    idx[-1] = [0, sizes[-1]]
  case['p'] = dict(idx=idx)
  return case


@entry('index', _make_index)
def _index(a, p):
  return a['x'][tuple(slice(*i) if isinstance(i, list) else i
                      for i in p['idx'])]


def _make_gather(draw):
  case = _one('tensor')(draw)
  x = case['tt']['x']
  sizes = ([] if x['bs'] is None else [x['bs']]) + x['n']
  shape = [gen.integer(draw, 1, 4) for _ in range(gen.pick(draw, 1, 1, 2))]
  case['arr'] = dict(i=dict(shape=shape + [len(sizes)], int=sizes,
                            seed=gen.seed(draw)))
  return case


@entry('gather', _make_gather)
def _gather(a, p):
  return t3f.gather_nd(a['x'], a['i'])


def _make_kron(draw):
  d = gen.pick(draw, 1, 2, 3)
  n = [gen.integer(draw, 1, 3) for _ in range(d)]
  x = gen.tt(draw, 'matrix', n=n, m=n, r=[1] * (d + 1), fills=MILD)
  return dict(tt=dict(x=x), p=dict(kron=['x']))


for _name, _fn in (('determinant', t3f.kronecker.determinant),
                   ('slog_determinant', t3f.kronecker.slog_determinant),
                   ('inv', t3f.kronecker.inv),
                   ('cholesky', t3f.kronecker.cholesky)):
  entry('kron-' + _name, _make_kron)(lambda a, p, fn=_fn: fn(a['x']))


# ------------------------------------------------------------------ binary


def _two(kind='any', same=False, fills=gen.FILLS, size=80, bs='any', maxd=5,
         square=False, bs2=None):
  def make(draw):
    x = gen.tt(draw, kind, fills=fills, maxr=3, size=size, bs=bs, maxd=maxd,
               square=square)
    b = gen.partner_batch(draw, x['bs']) if bs2 is None else bs2
    y = gen.like(draw, x, bs=b, fills=fills, maxr=3)
    return dict(tt=dict(x=x, y=y))
  return make


entry('add', _two())(lambda a, p: a['x'] + a['y'])
entry('sub', _two())(lambda a, p: a['x'] - a['y'])
entry('mul', _two())(lambda a, p: a['x'] * a['y'])
entry('flat_inner', _two())(lambda a, p: t3f.flat_inner(a['x'], a['y']))
def _make_concat(draw):
  case = _two(bs='yes', bs2='yes')(draw)
  case['tt']['y']['r'] = list(case['tt']['x']['r'])
  return case


entry('concat', _make_concat)(
    lambda a, p: t3f.concat_along_batch_dim([a['x'], a['y']]))
entry('pairwise', _two(bs='yes', bs2='yes'))(
    lambda a, p: t3f.pairwise_flat_inner(a['x'], a['y']))
entry('project', _two(fills=MILD, bs2='no'))(
    lambda a, p: t3f.project(a['x'], a['y']))


def _make_matmul(draw):
  d = gen.pick(draw, 1, 2, 3)
  n, m, k = gen.mode_lists(draw, 3, d, 3)
  x = gen.tt(draw, 'matrix', n=n, m=m, maxr=3)
  y = gen.tt(draw, 'matrix', n=m, m=k, maxr=3, dt=x['dtype'],
             bs=gen.partner_batch(draw, x['bs']))
  return dict(tt=dict(x=x, y=y))


entry('matmul', _make_matmul)(lambda a, p: t3f.matmul(a['x'], a['y']))


def _make_dense(draw):
  case = _one('matrix', bs='no')(draw)
  x = case['tt']['x']
  case['p'] = dict(side=gen.pick(draw, 'left', 'right'))
  k = gen.integer(draw, 1, 4)
  rows, cols = core.prod(x['n']), core.prod(x['m'])
  shape = [k, rows] if case['p']['side'] == 'left' else [cols, k]
  case['arr'] = dict(y=arr(draw, shape, x['dtype']))
  return case


@entry('matmul-dense', _make_dense)
def _matmul_dense(a, p):
  y = tf.convert_to_tensor(a['y'])
  if p['side'] == 'left':
    return t3f.matmul(y, a['x'])
  return t3f.matmul(a['x'], y)


def _make_sparse(draw):
  case = _one(bs='no')(draw)
  x = case['tt']['x']
  sizes = x['n'] if x['m'] is None else [core.prod(x['n']), core.prod(x['m'])]
  k = gen.integer(draw, 1, 5)
  case['arr'] = dict(i=dict(shape=[k, len(sizes)], int=sizes,
                            seed=gen.seed(draw)),
                     v=arr(draw, [k], x['dtype']))
  case['p'] = dict(shape=sizes)
  return case


@entry('flat_inner-sparse', _make_sparse)
def _flat_inner_sparse(a, p):
  s = tf.SparseTensor(tf.cast(a['i'], tf.int64), a['v'], p['shape'])
  return t3f.flat_inner(a['x'], s)


def _make_form(draw):
  d = gen.pick(draw, 1, 2, 3)
  n, m = gen.mode_lists(draw, 2, d, 3)
  dt = gen.dtype(draw)
  one = [1] * d
  b = gen.batch(draw)
  b1, b2 = gen.pick(draw, (b, b), (b, None), (None, b))
  mk = lambda p, q, b: gen.tt(draw, 'matrix', n=p, m=q, bs=b, dt=dt, maxr=3)
  return dict(tt=dict(A=mk(n, m, None), x=mk(n, one, b1), y=mk(m, one, b2)))


entry('bilinear_form', _make_form)(
    lambda a, p: t3f.bilinear_form(a['A'], a['x'], a['y']))


def _make_form2(draw):
  d = gen.pick(draw, 1, 2, 3)
  n, m, k = gen.mode_lists(draw, 3, d, 3)
  dt = gen.dtype(draw)
  one = [1] * d
  b = gen.batch(draw)
  b1, b2 = gen.pick(draw, (b, b), (b, None), (None, b))
  mk = lambda p, q, b=None: gen.tt(draw, 'matrix', n=p, m=q, bs=b, dt=dt,
                                   maxr=2)
  return dict(tt=dict(A=mk(n, m), B=mk(m, k), x=mk(n, one, b1),
                      y=mk(k, one, b2)))


entry('bilinear_form_two_mat', _make_form2)(
    lambda a, p: t3f.ops.bilinear_form_two_mat(a['x'], a['A'], a['B'], a['y']))


def _make_pair_matrix(draw):
  d = gen.pick(draw, 1, 2, 3)
  n, m = gen.mode_lists(draw, 2, d, 3)
  dt = gen.dtype(draw)
  one = [1] * d
  mk = lambda p, q, b: gen.tt(draw, 'matrix', n=p, m=q, bs=b, dt=dt, maxr=3)
  return dict(tt=dict(A=mk(n, m, None), x=mk(n, one, 'yes'),
                      y=mk(m, one, 'yes')))


entry('pairwise-matrix', _make_pair_matrix)(
    lambda a, p: t3f.pairwise_flat_inner(a['x'], a['y'], a['A']))


def _make_weights(draw):
  case = _one(bs='yes')(draw)
  x = case['tt']['x']
  case['arr'] = dict(w=arr(draw, [x['bs']], x['dtype']))
  return case


@entry('multiply_along', _make_weights)
def _multiply_along(a, p):
  return t3f.multiply_along_batch_dim(a['x'], a['w'])


# --------------------------------------------------------------- Riemannian


def _make_project_sum(draw):
  case = _two(fills=MILD, bs='yes', bs2='no')(draw)
  x = case['tt']['x']
  how = gen.pick(draw, 'none', 'vector', 'matrix')
  if how == 'vector':
    case['arr'] = dict(w=arr(draw, [x['bs']], x['dtype']))
  elif how == 'matrix':
    case['arr'] = dict(w=arr(draw, [x['bs'], gen.integer(draw, 1, 3)],
                             x['dtype']))
  return case


@entry('project_sum', _make_project_sum)
def _project_sum(a, p):
  return t3f.project_sum(a['x'], a['y'], a.get('w'))


def _make_project_matmul(draw):
  d = gen.pick(draw, 1, 2, 3)
  n, m = gen.mode_lists(draw, 2, d, 3)
  dt = gen.dtype(draw)
  mk = lambda p, q, b: gen.tt(draw, 'matrix', n=p, m=q, bs=b, dt=dt, maxr=2,
                              fills=MILD)
  return dict(tt=dict(x=mk(n, m, 'any'), y=mk(n, m, None), A=mk(n, n, None)))


entry('project_matmul', _make_project_matmul)(
    lambda a, p: t3f.project_matmul(a['x'], a['y'], a['A']))


def _make_projected(draw):
  case = _two(fills=MILD, bs='yes', bs2='no')(draw)
  case['tt']['z'] = gen.like(draw, case['tt']['x'], bs='yes', fills=MILD)
  return case


@entry('pairwise-projected', _make_projected)
def _pairwise_projected(a, p):
  return t3f.pairwise_flat_inner_projected(t3f.project(a['x'], a['y']),
                                           t3f.project(a['z'], a['y']))


def _make_add_projected(draw):
  case = _two(fills=MILD, bs2='no')(draw)
  x = case['tt']['x']
  case['tt']['z'] = gen.like(draw, x, bs=x['bs'], fills=MILD)
  how = gen.pick(draw, 'none', 'vector', 'matrix')
  if how == 'vector' or (how == 'matrix' and x['bs'] is None):
    case['arr'] = dict(w=arr(draw, [2], x['dtype']))
  elif how == 'matrix':
    case['arr'] = dict(w=arr(draw, [2, x['bs']], x['dtype']))
  return case


@entry('add_n-projected', _make_add_projected)
def _add_projected(a, p):
  objs = [t3f.project(a[k], a['y']) for k in 'xz']
  return t3f.add_n_projected(objs, a.get('w'))


@entry('deltas', _two(fills=MILD, bs2='no'))
def _deltas(a, p):
  # Delta-cores are defined up to the choice of the frames.
  x = t3f.project(a['x'], a['y'])
  return t3f.riemannian.deltas_to_tangent_space(
      t3f.tangent_space_to_deltas(x), a['y'])


def _make_grad(draw):
  x = gen.tt(draw, bs='no', maxr=2, size=40, fills=('normal', 'pos'), maxd=3)
  y = gen.like(draw, x, bs='no', maxr=2, fills=('normal', 'pos'))
  return dict(tt=dict(x=x, y=y), p=dict(
      # Roundoff trips the runtime check in single precision.
      check=x['dtype'] == 'float64' and gen.flag(draw)))


@entry('gradients', _make_grad)
def _gradients(a, p):
  f = lambda z: t3f.flat_inner(z, a['y']) ** 2
  return t3f.gradients(f, a['x'], runtime_check=p['check'])


@entry('hessian', _make_grad)
def _hessian(a, p):
  f = lambda z: t3f.flat_inner(z, a['y']) ** 2
  return t3f.hessian_vector_product(f, a['x'], a['y'],
                                    runtime_check=p['check'])


# -------------------------------------------------------------- approximate


def _make_add_n(draw):
  x = gen.tt(draw, maxr=2, size=80, fills=('normal',))
  case = dict(tt={'x': x})
  for k in 'yzw'[:gen.integer(draw, 1, 3)]:
    case['tt'][k] = gen.like(draw, x, bs=x['bs'], maxr=2, fills=('normal',))
  case['p'] = dict(cap=_cap_list(draw, len(x['n'])))
  return case


@entry('approximate-add_n', _make_add_n)
def _approx_add(a, p):
  return t3f.approximate.add_n([a[k] for k in 'xyzw' if k in a], p['cap'])


def _make_reduce(draw):
  x = gen.tt(draw, maxr=2, size=80, fills=('normal',), bs='yes')
  case = dict(tt={'x': x}, p=dict(cap=_cap_list(draw, len(x['n']))))
  how = gen.pick(draw, 'none', 'vector', 'matrix')
  if how == 'vector':
    case['arr'] = dict(w=arr(draw, [x['bs']], x['dtype']))
  elif how == 'matrix':
    case['arr'] = dict(w=arr(draw, [x['bs'], gen.integer(draw, 1, 3)],
                             x['dtype']))
  return case


@entry('reduce_sum_batch', _make_reduce)
def _reduce(a, p):
  return t3f.approximate.reduce_sum_batch(a['x'], p['cap'], a.get('w'))
