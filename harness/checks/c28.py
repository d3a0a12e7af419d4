"""C28: regularizers."""
import numpy as np
import tensorflow as tf
import t3f
from harness import core, gen
from harness.core import Arg, require

CHECK = core.Check('C28')

# Penalties of a core: name -> (TensorFlow, NumPy).
PENALTIES = {
    'square': (lambda c: tf.reduce_sum(c ** 2), lambda c: (c ** 2).sum()),
    'l1': (lambda c: tf.reduce_sum(tf.abs(c)), lambda c: np.abs(c).sum()),
    'l2_loss': (tf.nn.l2_loss, lambda c: (c ** 2).sum() / 2),
    'max': (lambda c: tf.reduce_max(tf.abs(c)), lambda c: np.abs(c).max()),
    'mean4': (lambda c: tf.reduce_mean(c ** 4), lambda c: (c ** 4).mean()),
    'one': (lambda c: tf.ones([], c.dtype), lambda c: 1.0),
    'rank': (lambda c: tf.cast(tf.shape(c)[-1], c.dtype),
             lambda c: float(c.shape[-1])),
    'signed': (lambda c: -tf.reduce_sum(c), lambda c: -c.sum()),
    'vector': (lambda c: tf.stack([tf.reduce_sum(c ** 2), tf.ones([], c.dtype)]),
               lambda c: np.array([(c ** 2).sum(), 1.0])),
}
BOUNDS = {'mean4': lambda c: (c ** 4).mean(), 'signed': lambda c:
          np.abs(c).sum()}


def gen_scale(draw):
  value = gen.pick(draw, 1e-6, 0.1, 0.25, 1.0, 3.5, 1e4)
  return dict(value=value, kind=gen.pick(draw, 'float', 'float', 'np64', 'np32',
                                         'tensor', 'variable', 'array'))


def scale_of(s, dtype):
  v = s['value']
  k = s['kind']
  if k == 'float':
    return v, v
  if k == 'np64':
    return np.float64(v), v
  if k == 'np32':
    return np.float32(v), float(np.float32(v))
  exact = float(np.dtype(dtype).type(v))
  if k == 'tensor':
    return tf.constant(v, dtype), exact
  if k == 'variable':
    return tf.Variable(v, dtype=dtype), exact
  return np.asarray(v, dtype), exact


def run(fn, case, tt, mode=None):
  """The penalty, eagerly or in a compiled function."""
  mode = mode or case['mode']
  if mode == 'eager':
    return fn(tt)
  if mode == 'graph':
    return tf.function(lambda: fn(tt))()
  batch = isinstance(tt, t3f.TensorTrainBatch)
  kind = t3f.TensorTrainBatch if batch else t3f.TensorTrain
  return tf.function(lambda cores: fn(kind(cores)))(list(tt.tt_cores))


def gen_common(draw, **kw):
  return dict(x=gen.tt(draw, **kw), s=gen_scale(draw), scope=gen.pick(
      draw, None, None, 'reg', 'a/b'), mode=gen.pick(
          draw, 'eager', 'eager', 'graph', 'args'))


@CHECK.op('l2', lambda draw: gen_common(draw), quick=600)
def l2(case):
  x = Arg(case['x'])
  scale, s = scale_of(case['s'], x.dtype)
  reg = t3f.l2_regularizer(scale, case['scope']) if case['scope'] else \
      t3f.l2_regularizer(scale)
  axes = tuple(range(0 if x.bs is None else 1, x.d.ndim))
  want = s * (x.d ** 2).sum(axis=axes)
  got = run(reg, case, x.tt)
  core.expect_dense(got, want, s * np.asarray(x.q) ** 2, x.dtype)
  # A regularizer may be used many times, for different objects.
  again = core.to_np(reg(2. * x.tt))
  core.close(again, 4 * want, 4 * s * np.asarray(x.q) ** 2, x.dtype, 'twice')
  core.close(core.to_np(reg(x.tt)), want, s * np.asarray(x.q) ** 2, x.dtype,
             'the second call')


def gen_cores(draw):
  case = gen_common(draw)
  case['f'] = gen.pick(draw, *sorted(PENALTIES))
  return case


@CHECK.op('cores', gen_cores, quick=700)
def cores(case):
  x = Arg(case['x'])
  scale, s = scale_of(case['s'], x.dtype)
  fn, model = PENALTIES[case['f']]
  seen = []

  def penalty(c):
    seen.append(tuple(c.shape))
    return fn(c)

  reg = t3f.cores_regularizer(penalty, scale, case['scope'])
  require(not seen, 'the penalty is computed before it is asked for')
  values = [c.astype(np.float64) for c in x.cores]
  want = s * sum(model(c) for c in values)
  size = s * sum(BOUNDS.get(case['f'], model)(c) for c in values)
  got = run(reg, case, x.tt)
  core.expect_dense(got, want, size, x.dtype)
  require(sorted(seen) == sorted(c.shape for c in x.cores), 'the penalty was '
          'computed for %s instead of each core %s', seen,
          [c.shape for c in x.cores])


def gen_rejected(draw):
  return dict(x=gen.tt(draw), value=gen.integer(draw, -5, 5), kind=gen.pick(
      draw, 'int', 'np.int64', 'np.int32', 'np.uint8', 'bool', 'negative',
      'negative', 'np-negative', 'tiny', 'inf', 'f32', 'zero', 'zero', 'np-zero',
      'minus-zero', 'zero32'), which=gen.pick(draw, 'l2', 'cores'),
      scope=gen.pick(draw, None, 'reg'))


@CHECK.op('validation', gen_rejected, quick=500)
def validation(case):
  x = Arg(case['x'])
  v = case['value']
  k = case['kind']
  neg = -abs(v) - 0.5
  value = {'int': v, 'np.int64': np.int64(v), 'np.int32': np.int32(v),
           'np.uint8': np.uint8(abs(v)), 'bool': v > 0, 'negative': neg,
           'np-negative': np.float64(neg), 'tiny': -1e-12,
           'inf': -float('inf'), 'f32': np.float32(neg), 'zero': 0.0,
           'np-zero': np.float64(0), 'minus-zero': -0.0,
           'zero32': np.float32(0)}[k]

  def make():
    if case['which'] == 'l2':
      return t3f.l2_regularizer(value, scope=case['scope'])
    return t3f.cores_regularizer(tf.nn.l2_loss, value, scope=case['scope'])

  if 'zero' in k:
    reg = make()
    require(callable(reg), 'scale %r: %r is not a function', value, reg)
    got = reg(x.tt)
    require(got is None, 'the penalty of a disabled regularizer is %s', got)
  else:
    core.must_raise(make, ValueError, '%s regularizer with scale %r' % (
        case['which'], value))


def gen_variable(draw):
  case = gen_common(draw)
  case['f'] = gen.pick(draw, 'l2', 'square', 'l1', 'none')
  case['s']['kind'] = 'float'
  return case


@CHECK.op('variable', gen_variable, quick=120)
def variable(case):
  """Penalties of variables are collected and follow the value."""
  x = Arg(case['x'])
  s = case['s']['value']
  y = [c * np.dtype(x.dtype).type(0.5) for c in x.cores]
  f = case['f']
  if f == 'l2':
    reg = t3f.l2_regularizer(s)
  elif f == 'none':
    reg = t3f.l2_regularizer(0.0)
  else:
    reg = t3f.cores_regularizer(PENALTIES[f][0], s)

  def model(cores):
    cores = [c.astype(np.float64) for c in cores]
    if f == 'l2':
      d = core.contract(cores, x.matrix, x.bs is not None)
      axes = tuple(range(0 if x.bs is None else 1, d.ndim))
      return s * (d ** 2).sum(axis=axes), s * np.asarray(x.q) ** 2
    v = s * sum(PENALTIES[f][1](c) for c in cores)
    return v, v

  with tf.Graph().as_default():
    init = core.make_tt(x.cores, x.bs is not None)
    other = core.make_tt(y, x.bs is not None)
    v = t3f.get_variable('v', initializer=init, regularizer=reg,
                         dtype=tf.as_dtype(x.dtype))
    losses = tf.compat.v1.get_collection(
        tf.compat.v1.GraphKeys.REGULARIZATION_LOSSES)
    require(len(losses) == (0 if f == 'none' else 1), '%d losses',
            len(losses))
    with tf.compat.v1.Session() as sess:
      sess.run(tf.compat.v1.global_variables_initializer())
      if losses:
        require(losses[0].dtype == tf.as_dtype(x.dtype), 'dtype of the loss')
        core.close(sess.run(losses[0]), *(model(x.cores) + (x.dtype, 'loss')))
        # The operation of assignment has to run completely.
        sess.run([c for c in t3f.assign(v, other).tt_cores])
        core.close(sess.run(losses[0]), *(model(y) + (x.dtype, 'loss after '
                                                      'assign')))


def gen_gradient(draw):
  case = gen_common(draw, fills=gen.REGULAR)
  case['f'] = gen.pick(draw, 'square', 'l2_loss', 'mean4')
  return case


@CHECK.op('gradient', gen_gradient, quick=250)
def gradient(case):
  """The penalties may be minimized."""
  x = Arg(case['x'])
  scale, s = scale_of(case['s'], x.dtype)
  reg = t3f.cores_regularizer(PENALTIES[case['f']][0], scale)
  grads = {'square': lambda c: 2 * c, 'l2_loss': lambda c: c,
           'mean4': lambda c: 4 * c ** 3 / c.size}[case['f']]
  with tf.GradientTape() as tape:
    tape.watch(x.tt.tt_cores)
    loss = reg(x.tt)
  for g, c in zip(tape.gradient(loss, list(x.tt.tt_cores)), x.cores):
    require(g is not None, 'no gradient')
    w = s * grads(c.astype(np.float64))
    core.expect_dense(g, w, np.abs(w), x.dtype)
