"""C29: derivatives of scalar expressions with respect to the cores."""
import numpy as np
import tensorflow as tf
import t3f
from harness import core, gen, tangent
from harness.core import Arg, require

CHECK = core.Check('C29', assumptions=[
    'the derivative of the same expression of dense tensors by TensorFlow in '
    'float64 is taken as the truth',
    'round-off is bounded by the derivatives of the expression of absolute '
    'values'])


def dense(cores, matrix, batch):
  """core.contract for TensorFlow."""
  if not batch:
    cores = [c[None] for c in cores]
  if not matrix:
    n = [int(c.shape[2]) for c in cores]
    cores = [c[:, :, :, None, :] for c in cores]
  b = int(cores[0].shape[0])
  acc = tf.ones((b, 1, 1, 1), tf.float64)
  for c in cores:
    s = [int(acc.shape[1]), int(acc.shape[2])] + [int(v) for v in c.shape]
    acc = tf.einsum('bijr,brnms->binjms', acc, c)
    acc = tf.reshape(acc, [b, s[0] * s[4], s[1] * s[5], s[6]])
  # No indexing: its derivative is wrong for more than eight axes.
  shape = n if not matrix else [int(acc.shape[1]), int(acc.shape[2])]
  return tf.reshape(acc, ([b] if batch else []) + shape)


class Aux(object):
  """Constants of an expression; `sign` is 1 in the expression of abs."""

  def __init__(self, case, absolute):
    self.case, self.absolute = case, absolute
    self.minus = 1.0 if absolute else -1.0
    self.arrays = {}

  def rng(self, k):
    return np.random.RandomState((self.case['seed'] + k) % 2 ** 32)

  def array(self, shape, k=0):
    a = self.rng(k).randn(*shape)
    a = a.astype(self.case['x']['dtype']).astype(np.float64)
    return np.abs(a) if self.absolute else a

  def indices(self, n, count, bs=None, k=0):
    rng = self.rng(k + 50)
    cols = [rng.randint(0, s, size=count) for s in n]
    if bs is not None:
      cols = [rng.randint(0, bs, size=count)] + cols
    return np.stack(cols, -1)

  def cores(self, n, m, bs, k=0):
    spec = dict(n=n, m=m, bs=bs, dtype=self.case['x']['dtype'],
                r=[1] + [2] * (len(n) - 1) + [1], fill='normal',
                seed=self.case['seed'] + 100 + k)
    cores = core.np_cores(spec)
    return [np.abs(c) for c in cores] if self.absolute else cores

  def tt(self, n, m, bs, k=0):
    # The values are those of the dtype of x.
    dtype = 'float64' if self.case['part'] == 'cast' else \
        self.case['x']['dtype']
    return core.make_tt([c.astype(dtype) for c in self.cores(n, m, bs, k)],
                        bs is not None)

  def dense(self, n, m, bs, k=0):
    return tf.constant(core.contract(self.cores(n, m, bs, k), m is not None,
                                     bs is not None))


def meta(tt):
  raw = [core.as_int_list(s) for s in tt.get_raw_shape()]
  bs = int(tt.batch_size) if isinstance(tt, t3f.TensorTrainBatch) else None
  return raw[0], (raw[1] if len(raw) > 1 else None), bs


# --------------------------------------------- TT-valued parts of expressions
#
# name -> (applicable(x), library(x, y, aux), model(X, Y, aux, x)), where x and
# y are TT-objects and X and Y are dense values.

def slices(case):
  rng = np.random.RandomState(case['seed'] % 2 ** 32)
  n = case['x']['n']
  res = []
  for s in n:
    kind = rng.randint(3)
    i = int(rng.randint(s))
    res.append(slice(None) if kind == 0 else i if kind == 1 else
               slice(i, None))
  if not any(isinstance(s, slice) for s in res):
    res[int(rng.randint(len(n)))] = slice(None)
  if case['x']['bs'] is not None:
    res = [slice(None)] + res
  return tuple(res)


def modes_left(case):
  rng = np.random.RandomState(case['seed'] % 2 ** 32)
  return [int(rng.randint(1, 4)) for _ in case['x']['n']]


def left_matrix(aux):
  case = aux.case
  return aux.cores(modes_left(case), case['x']['n'], None, 7)


def left_model(aux):
  return tf.constant(core.contract(left_matrix(aux), True, False))


def batch_weights(aux):
  return aux.array([aux.case['x']['bs']], 9)


def cat(x, y, aux):
  return t3f.concat_along_batch_dim([x, y])


any_ = lambda x: True
batch_ = lambda x: x['bs'] is not None
matrix_ = lambda x: x['m'] is not None
tensor_ = lambda x: x['m'] is None

PARTS = {
    'x': (any_, lambda x, y, a: x, lambda X, Y, a: X),
    'add': (any_, lambda x, y, a: x + y, lambda X, Y, a: X + Y),
    'twice': (any_, lambda x, y, a: x + x, lambda X, Y, a: X + X),
    'sub': (any_, lambda x, y, a: x - y, lambda X, Y, a: X + a.minus * Y),
    'neg': (any_, lambda x, y, a: -x, lambda X, Y, a: a.minus * X),
    'scale': (any_, lambda x, y, a: 2.5 * x, lambda X, Y, a: 2.5 * X),
    'mul': (any_, lambda x, y, a: x * y, lambda X, Y, a: X * Y),
    'square': (any_, lambda x, y, a: x * x, lambda X, Y, a: X * X),
    'inner-scale': (
        lambda x: x['bs'] is None,
        lambda x, y, a: x * t3f.flat_inner(x, y),
        lambda X, Y, a: X * tf.reduce_sum(X * Y)),
    'renorm': (any_, lambda x, y, a: t3f.renormalize_tt_cores(x),
               lambda X, Y, a: X),
    'cast': (any_, lambda x, y, a: t3f.cast(x, tf.float64),
             lambda X, Y, a: X),
    'transpose': (matrix_, lambda x, y, a: t3f.transpose(x),
                  lambda X, Y, a: tf.linalg.matrix_transpose(X)),
    'matmul': (matrix_, lambda x, y, a: t3f.matmul(
        core.make_tt(left_matrix(a), False), x),
               lambda X, Y, a: tf.matmul(left_model(a), X)),
    'xty': (matrix_, lambda x, y, a: t3f.matmul(t3f.transpose(x), y),
            lambda X, Y, a: tf.matmul(X, Y, transpose_a=True)),
    'slice': (tensor_, lambda x, y, a: x[slices(a.case)],
              lambda X, Y, a: X[slices(a.case)]),
    'item': (batch_, lambda x, y, a: x[a.case['x']['bs'] // 2],
             lambda X, Y, a: X[a.case['x']['bs'] // 2]),
    'items': (batch_, lambda x, y, a: x[:(a.case['x']['bs'] + 1) // 2],
              lambda X, Y, a: X[:(a.case['x']['bs'] + 1) // 2]),
    'weights': (batch_, lambda x, y, a: t3f.multiply_along_batch_dim(
        x, tf.constant(batch_weights(a), x.dtype)),
                lambda X, Y, a: X * tf.reshape(
                    tf.constant(batch_weights(a)),
                    [-1] + [1] * (len(X.shape) - 1))),
    'concat': (batch_, cat, lambda X, Y, a: tf.concat([X, Y], 0)),
}


def scaled_by_zero(case, message):
  if case.get('part') != 'inner-scale' or 'got nan' not in message:
    return False
  x, y = Arg(case['x']), Arg(case['y'])
  return (x.d * y.d).sum() == 0


CHECK.known_rules['scale-by-zero'] = scaled_by_zero


# ------------------------------------------------- scalar parts: e is a TT
#
# name -> (applicable(n, m, bs), library(e, aux), model(E, aux, (n, m, bs)))

def weights(aux, bs):
  return 1.0 if bs is None else aux.array([bs], 3)


def wsum(value, aux, bs):
  """Scalar from one value per element."""
  if bs is None:
    return value
  return tf.reduce_sum(value * tf.constant(weights(aux, bs), value.dtype))


def per_item(E, bs):
  return tf.reduce_sum(E, axis=list(range(0 if bs is None else 1,
                                          len(E.shape))))


def constant(aux, shape, dtype, k):
  return tf.constant(aux.array(shape, k), dtype)


def lib_sparse(e, a):
  n, m, _ = meta(e)
  shape = n if m is None else [core.prod(n), core.prod(m)]
  idx = a.indices(shape, 3, k=1)
  idx = np.array(sorted(set(map(tuple, idx.tolist()))))
  v = constant(a, [len(idx)], e.dtype, 4)
  return t3f.flat_inner(e, tf.SparseTensor(idx, v, shape))


def model_sparse(E, a, s):
  n, m, _ = s
  shape = n if m is None else [core.prod(n), core.prod(m)]
  idx = a.indices(shape, 3, k=1)
  idx = np.array(sorted(set(map(tuple, idx.tolist()))))
  return tf.reduce_sum(tf.gather_nd(E, idx) * constant(a, [len(idx)],
                                                       tf.float64, 4))


def lib_gather(e, a):
  n, _, bs = meta(e)
  idx = a.indices(n, 4, bs)
  return tf.reduce_sum(t3f.gather_nd(e, idx) * constant(a, [4], e.dtype, 5))


def model_gather(E, a, s):
  n, _, bs = s
  return tf.reduce_sum(tf.gather_nd(E, a.indices(n, 4, bs)) *
                       constant(a, [4], tf.float64, 5))


def flat(E, bs):
  return tf.reshape(E, [bs, -1])


def lib_gram(e, a):
  bs = meta(e)[2]
  return tf.reduce_sum(t3f.gram_matrix(e) * constant(a, [bs, bs], e.dtype, 6))


def model_gram(E, a, s):
  v = flat(E, s[2])
  return tf.reduce_sum(tf.matmul(v, v, transpose_b=True) *
                       constant(a, [s[2], s[2]], tf.float64, 6))


def lib_pairwise(e, a):
  n, m, bs = meta(e)
  g = t3f.pairwise_flat_inner(e, a.tt(n, m, 2))
  return tf.reduce_sum(g * constant(a, [bs, 2], e.dtype, 6))


def model_pairwise(E, a, s):
  n, m, bs = s
  v, t = flat(E, bs), flat(a.dense(n, m, 2), 2)
  return tf.reduce_sum(tf.matmul(v, t, transpose_b=True) *
                       constant(a, [bs, 2], tf.float64, 6))


def vectors(n, m, bs):
  return m is not None and all(v == 1 for v in m)


def lib_bilinear(e, a):
  n, m, bs = meta(e)
  return wsum(tf.reshape(t3f.bilinear_form(a.tt(n, n, None, 2), e, e),
                         [] if bs is None else [bs]), a, bs)


def model_bilinear(E, a, s):
  n, m, bs = s
  A = a.dense(n, n, None, 2)
  return wsum(per_item(E * tf.matmul(A, E), bs), a, bs)


def lib_two(e, a):
  n, m, bs = meta(e)
  A = a.tt(n, n, None, 2)
  return wsum(tf.reshape(t3f.ops.bilinear_form_two_mat(e, A, A, e),
                         [] if bs is None else [bs]), a, bs)


def model_two(E, a, s):
  n, m, bs = s
  A = a.dense(n, n, None, 2)
  return wsum(per_item(E * tf.matmul(A, tf.matmul(A, E)), bs), a, bs)


def lib_matrix_form(e, a):
  """e is the matrix of a bilinear form."""
  n, m, _ = meta(e)
  b, c = a.tt(n, [1] * len(n), None, 3), a.tt(m, [1] * len(n), None, 4)
  return t3f.bilinear_form(e, b, c)


def model_matrix_form(E, a, s):
  n, m, _ = s
  b = a.dense(n, [1] * len(n), None, 3)
  c = a.dense(m, [1] * len(n), None, 4)
  return tf.reduce_sum(b * tf.matmul(E, c))


def lib_dense_product(e, a):
  n, m, _ = meta(e)
  return tf.reduce_sum(t3f.matmul(e, constant(a, [core.prod(m), 2], e.dtype,
                                              8)) ** 2)


def model_dense_product(E, a, s):
  return tf.reduce_sum(tf.matmul(E, constant(a, [core.prod(s[1]), 2],
                                             tf.float64, 8)) ** 2)


always = lambda n, m, bs: True
single = lambda n, m, bs: bs is None
SCALARS = {
    'inner': (always, lambda e, a: wsum(
        t3f.flat_inner(e, a.tt(*meta(e))), a, meta(e)[2]),
              lambda E, a, s: wsum(per_item(E * a.dense(*s), s[2]), a, s[2])),
    'inner-self': (always, lambda e, a: wsum(t3f.flat_inner(e, e), a,
                                             meta(e)[2]),
                   lambda E, a, s: wsum(per_item(E * E, s[2]), a, s[2])),
    'norm2': (always, lambda e, a: wsum(t3f.frobenius_norm_squared(
        e, differentiable=True), a, meta(e)[2]),
              lambda E, a, s: wsum(per_item(E * E, s[2]), a, s[2])),
    'full': (always, lambda e, a: tf.reduce_sum(
        t3f.full(e) * constant(a, [int(v) for v in e.get_shape()], e.dtype, 2)),
             lambda E, a, s: tf.reduce_sum(E * constant(
                 a, [int(v) for v in E.shape], tf.float64, 2))),
    'full2': (always, lambda e, a: tf.reduce_sum(t3f.full(e) ** 2),
              lambda E, a, s: tf.reduce_sum(E ** 2)),
    'distance': (always, lambda e, a: wsum(t3f.frobenius_norm_squared(
        e - a.tt(*meta(e)), differentiable=True), a, meta(e)[2]),
                 lambda E, a, s: wsum(per_item(
                     (E + a.minus * a.dense(*s)) ** 2, s[2]), a, s[2])),
    'gather': (lambda n, m, bs: m is None, lib_gather, model_gather),
    'sparse': (single, lib_sparse, model_sparse),
    'gram': (lambda n, m, bs: bs is not None, lib_gram, model_gram),
    'pairwise': (lambda n, m, bs: bs is not None, lib_pairwise, model_pairwise),
    'bilinear': (vectors, lib_bilinear, model_bilinear),
    'two_mat': (lambda n, m, bs: vectors(n, m, bs) and bs is None, lib_two,
                model_two),
    'matrix-form': (lambda n, m, bs: m is not None and bs is None,
                    lib_matrix_form, model_matrix_form),
    'dense-product': (lambda n, m, bs: m is not None and bs is None,
                      lib_dense_product, model_dense_product),
}


def gen_expression(draw):
  kind = gen.pick(draw, 'tensor', 'tensor', 'matrix', 'vector')
  fills = ('normal', 'normal', 'pos', 'int')
  if kind == 'vector':
    n = gen.modes(draw, 200, maxd=4)
    x = gen.tt(draw, 'matrix', n=n, m=[1] * len(n), maxr=3, fills=fills)
  else:
    x = gen.tt(draw, kind, size=200, maxr=3, maxd=4, fills=fills)
  y = gen.like(draw, x, bs=x['bs'], maxr=3, fills=fills)
  part = gen.pick(draw, *sorted(k for k, v in PARTS.items() if v[0](x)))
  if part == 'concat':
    y = dict(y, r=x['r'])
  case = dict(x=x, y=y, part=part, seed=gen.seed(draw))
  n, m, bs = expected_meta(case)
  names = sorted(k for k, v in SCALARS.items() if v[0](n, m, bs))
  special = [k for k in names if k in ('gram', 'pairwise', 'bilinear',
                                       'two_mat', 'matrix-form')]
  return dict(case, scalar=gen.pick(draw, *(names + special)), mode=gen.pick(
      draw, 'watch', 'watch', 'variable', 'variable', 'function', 'graph'))


def expected_meta(case):
  n, m, bs = case['x']['n'], case['x']['m'], case['x']['bs']
  part = case['part']
  if part == 'item':
    bs = None
  elif part == 'items':
    bs = (bs + 1) // 2
  elif part == 'concat':
    bs = 2 * bs
  elif part == 'transpose':
    n, m = m, n
  elif part == 'xty':
    n, m = m, m
  elif part == 'matmul':
    n = modes_left(case)
  elif part == 'slice':
    index = slices(case)[0 if bs is None else 1:]
    n = [len(range(s)[i]) for s, i in zip(n, index) if isinstance(i, slice)]
  return n, m, bs


def library(case, x, y):
  aux = Aux(case, False)
  e = PARTS[case['part']][1](x, y, aux)
  require(meta(e) == expected_meta(case), 'modes and batch size are %s instead '
          'of %s', meta(e), expected_meta(case))
  return SCALARS[case['scalar']][1](e, aux), meta(e)


def judge_gradients(case, x, y, value_of, shape_meta, tol=None):
  """Expected gradients and their scales; value and its scale."""
  res = []
  for absolute in (False, True):
    aux = Aux(case, absolute)
    cs = [[tf.constant(np.abs(c) if absolute else c, tf.float64)
           for c in a.cores] for a in (x, y)]
    with tf.GradientTape() as tape:
      tape.watch(cs)
      X, Y = [dense(c, a.matrix, a.bs is not None)
              for c, a in zip(cs, (x, y))]
      E = PARTS[case['part']][2](X, Y, aux)
      value = value_of(E, aux, shape_meta)
    grads = tape.gradient(value, cs)
    res.append((value.numpy(), [
        [np.zeros(c.shape) if g is None else np.asarray(tf.convert_to_tensor(g))
         for g, c in zip(gs, c_)] for gs, c_ in zip(grads, cs)]))
  return res


def lib_gradients(case, x, y, fn):
  """(value, gradients) of the expression by the library.

  The mode says what the cores are and where the tape is.
  """
  mode = case['mode']
  batch = x.bs is not None
  if mode == 'graph':
    with tf.Graph().as_default():
      a, b = [core.make_tt(t.cores, batch) for t in (x, y)]
      value, shape_meta = fn(a, b)
      srcs = list(a.tt_cores) + list(b.tt_cores)
      g = tf.gradients(value, srcs)
      zero = [tf.zeros_like(s) if v is None else v for s, v in zip(srcs, g)]
      with tf.compat.v1.Session() as sess:
        value, g = sess.run([value, zero])
    return value, [g[:len(x.cores)], g[len(x.cores):]], shape_meta
  if mode == 'variable':
    a, b = [t3f.get_variable('v%d' % i, initializer=t.tt,
                             dtype=tf.as_dtype(t.dtype))
            for i, t in enumerate((x, y))]
  else:
    a, b = x.tt, y.tt
  srcs = [list(a.tt_cores), list(b.tt_cores)]
  found = []

  def run():
    with tf.GradientTape() as tape:
      if mode != 'variable':
        tape.watch(srcs)
      value, shape_meta = fn(a, b)
      found[:] = [shape_meta]
    g = tape.gradient(value, srcs)
    return value, [[tf.zeros_like(s) if v is None else tf.convert_to_tensor(v)
                    for s, v in zip(p, q)] for p, q in zip(srcs, g)]

  value, g = tf.function(run)() if mode == 'function' else run()
  return value, g, found[0]


def compare(case, x, y, value, g, model, tol=None):
  (v0, g0), (v1, g1) = model
  dt = x.dtype
  core.close(core.to_np(value), v0, abs(v1), dt, 'value', tol)
  for name, got, want, size, arg in zip('xy', g, g0, g1, (x, y)):
    for k, (p, q, s) in enumerate(zip(got, want, size)):
      what = 'derivative with respect to core %d of %s' % (k, name)
      p = core.to_np(p, what)
      require(p.dtype == np.dtype(dt), '%s: dtype %s', what, p.dtype)
      # One size for all the entries of a core.
      core.close(p, q, np.abs(s).max(), dt, what, tol)


@CHECK.op('expression', gen_expression, quick=700)
def expression(case):
  x, y = Arg(case['x']), Arg(case['y'])
  value, g, shape_meta = lib_gradients(case, x, y,
                                       lambda a, b: library(case, a, b))
  model = judge_gradients(case, x, y, SCALARS[case['scalar']][2], shape_meta)
  compare(case, x, y, value, g, model)


# ---------------------------------------------------------------------- norms


def gen_norm(draw):
  x = gen.tt(draw, size=300, maxr=3)
  return dict(x=x, y=x, part='x', eps=gen.pick(draw, None, None, 1e-5, 1e-3,
                                               1.0),
              seed=gen.seed(draw), mode=gen.pick(draw, 'watch', 'variable',
                                                 'function', 'graph'))


@CHECK.op('norm', gen_norm, quick=350)
def norm(case):
  """Smoothed norms, also at zero."""
  x = Arg(case['x'])
  y = Arg(case['y'])
  eps = 1e-5 if case['eps'] is None else case['eps']
  kw = {} if case['eps'] is None else dict(epsilon=eps)

  def fn(a, b):
    r = t3f.frobenius_norm(a, differentiable=True, **kw)
    return wsum(r, Aux(case, False), x.bs), meta(a)

  def value_of(E, aux, s):
    return wsum(tf.sqrt(per_item(E * E, s[2]) + eps), aux, s[2])

  value, g, shape_meta = lib_gradients(case, x, y, fn)
  model = judge_gradients(case, x, y, value_of, shape_meta)
  # Round-off of the squared norm is divided by the norm.
  q = np.atleast_1d(np.asarray(x.q, np.float64))
  n2 = np.atleast_1d((x.d ** 2).reshape(len(q), -1).sum(1)) + eps
  dt = x.dtype
  tol = core.TOL[dt]
  w = np.abs(np.atleast_1d(weights(Aux(case, False), x.bs)))
  core.close(core.to_np(value), model[0][0],
             (w * (np.sqrt(n2) + q ** 2 / np.sqrt(n2))).sum(), dt, 'value')
  for k, (p, want, c) in enumerate(zip(g[0], model[0][1][0], x.cores)):
    p = core.to_np(p)
    what = 'derivative with respect to core %d' % k
    require(np.all(np.isfinite(p)), '%s is not finite', what)
    c = c.reshape(len(q), -1).astype(np.float64)
    rest = np.array([np.prod([np.linalg.norm(o.reshape(len(q), -1)[b].astype(
        np.float64)) for j, o in enumerate(x.cores) if j != k])
                     for b in range(len(q))])
    size = w * (q * rest / np.sqrt(n2)) * (1 + q ** 2 / n2)
    core.close(p.reshape(len(q), -1), want.reshape(len(q), -1), size[:, None]
               if x.bs is not None else size[:, None], dt, what, 4 * tol)


# ---------------------------------------------------------------- projections


def gen_projection(draw):
  x = gen.tt(draw, bs=gen.pick(draw, None, None, 2, 3), size=200, maxr=2,
             maxd=4, fills=('normal', 'pos'))
  where = gen.like(draw, x, bs='no', maxr=2, fills=('normal', 'pos'))
  return dict(x=x, y=where, f=gen.pick(draw, 'project', 'project_sum', 'matmul',
                                       'flat_inner'),
              seed=gen.seed(draw), part='x', mode=gen.pick(
                  draw, 'watch', 'variable', 'function'))


@CHECK.op('projection', gen_projection, quick=160)
def projection(case):
  """Projections depend linearly on the projected object."""
  x, w = Arg(case['x']), Arg(case['y'])
  space = tangent.Space(w)
  if not np.isfinite(space.cond) or space.cond > 1e3:
    raise core.Skip('the point is not regular')
  f = case['f']
  bs = x.bs
  n, m = x.n, x.m
  if f == 'matmul' and m is None:
    f = 'project'
  aux = Aux(case, False)
  t = aux.tt(n, m, None, 11)
  T = aux.dense(n, m, None, 11).numpy()
  dt = tf.as_dtype(x.dtype)
  coef = np.ones(1) if bs is None else aux.array([bs], 12)
  where = w.tt

  def fn(a):
    if f == 'project_sum' and bs is not None:
      p = t3f.project_sum(a, where, tf.constant(coef, dt))
      return t3f.flat_inner(p, t)
    if f == 'matmul':
      mat = aux.tt(n, n, None, 13)
      p = t3f.project_matmul(a, where, mat)
    else:
      p = t3f.project(a, where)
    if f == 'flat_inner':
      # Scalar product inside of the tangent space.
      v = t3f.project(core.make_tt([c[None] for c in aux.cores(n, m, None, 11)],
                                   True), where)
      if bs is None:
        p = t3f.project(t3f.expand_batch_dim(a), where)
      g = t3f.pairwise_flat_inner_projected(p, v)
      return tf.reduce_sum(g * tf.constant(coef[:, None], dt))
    r = t3f.flat_inner(p, t)
    return r if bs is None else tf.reduce_sum(r * tf.constant(coef, dt))

  srcs = list(x.tt.tt_cores)
  a = x.tt
  if case['mode'] == 'variable':
    a = t3f.get_variable('v', initializer=x.tt, dtype=dt)
    srcs = list(a.tt_cores)

  def run():
    with tf.GradientTape() as tape:
      tape.watch(srcs)
      value = fn(a)
    return value, [tf.convert_to_tensor(v) for v in tape.gradient(value, srcs)]

  value, g = tf.function(run)() if case['mode'] == 'function' else run()
  # <P(x), t> = <x, P(t)>; derivative by the chain rule.
  G = space.project(T)
  if f == 'matmul':
    A = aux.dense(n, n, None, 13).numpy()
    G = A.T @ G
  elif f == 'flat_inner':
    G = space.project(G)
  cs = [tf.constant(c, tf.float64) for c in x.cores]
  with tf.GradientTape() as tape:
    tape.watch(cs)
    E = dense(cs, x.matrix, bs is not None)
    s = tf.reduce_sum(E * G, axis=list(range(0 if bs is None else 1,
                                             len(E.shape))))
    s = s if bs is None else tf.reduce_sum(s * coef)
  want = tape.gradient(s, cs)
  size = np.linalg.norm(T) * (np.linalg.norm(A) if f == 'matmul' else 1.0)
  size *= max(1.0, np.abs(coef).sum()) * space.cond * 10
  q = float(np.max(x.q))
  core.close(core.to_np(value), s.numpy(), size * np.sum(x.q), x.dtype, 'value')
  for k, (p, v) in enumerate(zip(g, want)):
    rest = max(np.prod([np.linalg.norm(
        c.astype(np.float64) if bs is None else c[b].astype(np.float64))
                        for j, c in enumerate(x.cores) if j != k])
               for b in range(bs or 1))
    core.expect_dense(p, v.numpy(), size * rest, x.dtype,
                      'derivative with respect to core %d' % k)


# ------------------------------------------------------------------- Kronecker


def gen_kron(draw):
  d = gen.integer(draw, 1, 3)
  n = [gen.integer(draw, 1, 3) for _ in range(d)]
  return dict(n=n, seed=gen.seed(draw), bs=gen.pick(draw, None, None, 2),
              f=gen.pick(draw, 'det', 'slogdet', 'inv', 'cholesky'),
              mode=gen.pick(draw, 'watch', 'variable'))


@CHECK.op('kronecker', gen_kron, quick=160)
def kronecker(case):
  n, f, bs = case['n'], case['f'], case['bs']
  rng = np.random.RandomState(case['seed'] % 2 ** 32)
  cores = []
  for s in n:
    e = rng.randn(bs or 1, s, s)
    c = np.matmul(e, e.transpose(0, 2, 1)) / (s + 1) + np.eye(s)
    cores.append(c[:, None, :, :, None] if bs else c[0][None, :, :, None])
  a = core.make_tt(cores, bs is not None)
  if case['mode'] == 'variable':
    a = t3f.get_variable('v', initializer=a, dtype=tf.float64)
  srcs = list(a.tt_cores)
  total = core.prod(n)
  W = rng.randn(total, total)
  k = t3f.kronecker
  with tf.GradientTape() as tape:
    tape.watch(srcs)
    if f == 'det':
      v = tf.reduce_sum(k.determinant(a))
    elif f == 'slogdet':
      v = tf.reduce_sum(k.slog_determinant(a)[1])
    else:
      r = t3f.full(k.inv(a) if f == 'inv' else k.cholesky(a))
      v = tf.reduce_sum(r * W)
  got = tape.gradient(v, srcs)
  cs = [tf.constant(c) for c in cores]
  with tf.GradientTape() as tape:
    tape.watch(cs)
    E = dense(cs, True, bs is not None)
    if f == 'det':
      s = tf.reduce_sum(tf.linalg.det(E))
    elif f == 'slogdet':
      s = tf.reduce_sum(tf.linalg.slogdet(E)[1])
    elif f == 'inv':
      s = tf.reduce_sum(tf.linalg.inv(E) * W)
    else:
      s = tf.reduce_sum(tf.linalg.cholesky(E) * W)
  want = tape.gradient(s, cs)
  core.close(core.to_np(v), s.numpy(), 1 + abs(s.numpy()) * 10, 'float64',
             'value')
  for i, (p, q) in enumerate(zip(got, want)):
    p, q = core.to_np(p), q.numpy()
    if f == 'cholesky':
      # Only symmetric perturbations make sense.
      ax = [0, 1, 3, 2, 4] if bs else [0, 2, 1, 3]
      p, q = p + p.transpose(ax), q + q.transpose(ax)
    size = 1 + np.abs(q).max() * 10 + np.abs(W).sum() / total
    core.close(p, q, 10 * size, 'float64',
               'derivative with respect to core %d' % i)


# --------------------------------------------------------------- second order


@CHECK.op('second', gen_expression, quick=200)
def second(case):
  """Derivatives of derivatives."""
  if case['part'] == 'renorm':
    case = dict(case, part='x')
  x, y = Arg(case['x']), Arg(case['y'])
  rng = np.random.RandomState(case['seed'] % 2 ** 32)
  dirs = [[rng.randn(*c.shape).astype(x.dtype) for c in a.cores]
          for a in (x, y)]

  def hvp(fn, srcs, v):
    with tf.GradientTape() as outer:
      outer.watch(srcs)
      with tf.GradientTape() as inner:
        inner.watch(srcs)
        value = fn()
      g = inner.gradient(value, srcs)
      s = sum(tf.reduce_sum(tf.convert_to_tensor(p) * q)
              for gs, vs in zip(g, v) for p, q in zip(gs, vs) if p is not None)
    h = outer.gradient(s, srcs)
    return [[np.zeros(t.shape) if p is None else
             np.asarray(tf.convert_to_tensor(p)) for p, t in zip(hs, ts)]
            for hs, ts in zip(h, srcs)]

  got = hvp(lambda: library(case, x.tt, y.tt)[0], [list(x.tt.tt_cores), list(y.tt.tt_cores)],
            [[tf.constant(v) for v in vs] for vs in dirs])
  shape_meta = expected_meta(case)
  res = []
  for absolute in (False, True):
    aux = Aux(case, absolute)
    fix = (lambda c: np.abs(c)) if absolute else (lambda c: c)
    cs = [[tf.constant(fix(c), tf.float64) for c in a.cores] for a in (x, y)]

    def fn():
      X, Y = [dense(c, a.matrix, a.bs is not None)
              for c, a in zip(cs, (x, y))]
      E = PARTS[case['part']][2](X, Y, aux)
      return SCALARS[case['scalar']][2](E, aux, shape_meta)
    res.append(hvp(fn, cs, [[tf.constant(fix(v), tf.float64) for v in vs]
                            for vs in dirs]))
  for name, p, q, s in zip('xy', got, res[0], res[1]):
    for k, (a, b, c) in enumerate(zip(p, q, s)):
      core.close(a, b, np.abs(c).max(), x.dtype,
                 'second derivative, core %d of %s' % (k, name))
