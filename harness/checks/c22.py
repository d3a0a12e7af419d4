"""C22: the TT dense layer of Keras."""
import os
import shutil
import tempfile
import numpy as np
import tensorflow as tf
import t3f
from harness import core, gen
from harness.core import require, must_raise, prod

CHECK = core.Check('C22', rule=(
    'A case counts if the layer has at least two cores and a TT-rank above 1; '
    'distinct by JSON.'),
    nontrivial=lambda c: any(len(l['n']) > 1 and max(np.atleast_1d(l['r'])) > 1
                             for l in c['layers']),
    assumptions=['NumPy versions of the activations are taken as the truth',
                 'float32 tolerance 1e-4 relative to the contraction of '
                 'absolute values'], clear_session=True)

KerasDense = t3f.nn.KerasDense


def _softmax(x):
  e = np.exp(x - x.max(axis=-1, keepdims=True))
  return e / e.sum(axis=-1, keepdims=True)


# name: (function, derivative or None)
ACT = {
    None: (lambda x: x, lambda x: np.ones_like(x)),
    'linear': (lambda x: x, lambda x: np.ones_like(x)),
    'relu': (lambda x: np.maximum(x, 0), lambda x: (x > 0) * 1.0),
    'tanh': (np.tanh, lambda x: 1 - np.tanh(x) ** 2),
    'sigmoid': (lambda x: 1 / (1 + np.exp(-x)),
                lambda x: np.exp(-x) / (1 + np.exp(-x)) ** 2),
    'softplus': (lambda x: np.log1p(np.exp(x)),
                 lambda x: 1 / (1 + np.exp(-x))),
    'elu': (lambda x: np.where(x > 0, x, np.expm1(x)),
            lambda x: np.where(x > 0, 1.0, np.exp(x))),
    'softmax': (_softmax, None),
}


def gen_layer(draw, n=None, acts=tuple(ACT)):
  if n is None:
    n, m = gen.matrix_modes(draw, size=40)
  else:
    m = [gen.integer(draw, 1, 3) for _ in n]
  d = len(n)
  style = gen.pick(draw, 'number', 'list', 'default')
  if style == 'number':
    r = gen.integer(draw, 1, 3)
  elif style == 'list':
    r = [1] + [gen.integer(draw, 1, 3) for _ in range(d - 1)] + [1]
  else:
    r = 2
  return dict(n=list(n), m=list(m), r=r, style=style,
              act=gen.pick(draw, *acts), bias=gen.pick(draw, True, True, False),
              init=gen.pick(draw, 'glorot', 'he', 'lecun'),
              b0=gen.pick(draw, 0.1, 0.0, -1.5, 2),
              dims=gen.pick(draw, 'list', 'tuple', 'array'))


def build(layer, **kw):
  dims = {'list': list, 'tuple': tuple, 'array': np.array}[layer['dims']]
  if layer['style'] != 'default':
    kw['tt_rank'] = layer['r']
  if layer['act'] is not None:
    kw['activation'] = layer['act']
  if not layer['bias']:
    kw['use_bias'] = False
  if layer['init'] != 'glorot':
    kw['kernel_initializer'] = layer['init']
  if layer['b0'] != 0.1:
    kw['bias_initializer'] = layer['b0']
  return KerasDense(dims(layer['n']), dims(layer['m']), **kw)


def true_ranks(layer):
  if isinstance(layer['r'], list):
    return layer['r']
  d = len(layer['n'])
  return [1] + [layer['r']] * (d - 1) + [1]


def state(layer_obj, layer, what):
  """Cores, bias, dense matrix and its scale, all checked for structure."""
  cores, ranks = core.check_structure(layer_obj.matrix, True, layer['n'],
                                      layer['m'], None, 'float32', what)
  require(ranks == true_ranks(layer), '%s: ranks %s', what, ranks)
  cores = [np.asarray(c, np.float64) for c in cores]
  dense = core.contract(cores, True, False)
  scale = core.contract([np.abs(c) for c in cores], True, False)
  if layer['bias']:
    b = layer_obj.b.numpy().astype(np.float64)
    require(b.shape == (prod(layer['m']),), '%s: bias %s', what, b.shape)
  else:
    b = np.zeros(prod(layer['m']))
  return cores, b, dense, scale


def forward(x, st, act):
  """Pre-activation, output and scale of the round-off."""
  _, b, w, s = st
  pre = x @ w + b
  return pre, ACT[act][0](pre), np.abs(x) @ s + np.abs(b)


def inputs(case, layer, num):
  rng = np.random.RandomState(case['seed'] % 2 ** 31)
  x = rng.randn(num, prod(layer['n']))
  if case.get('sparse'):
    x *= rng.rand(*x.shape) < 0.5
  return x.astype(np.float32)


def judge(got, want, scale, act, what):
  got = core.to_np(got)
  require(got.dtype == np.float32, '%s: dtype %s', what, got.dtype)
  require(got.shape == want.shape, '%s: shape %s instead of %s', what,
          got.shape, want.shape)
  err = np.abs(got - want)
  # All activations are 1-Lipschitz (softmax in the norm of the row).
  bound = 1e-4 * (1e-3 + scale)
  if act == 'softmax':
    bound = bound.sum(axis=-1, keepdims=True) + 1e-6
  require(np.all(err <= bound + 1e-6 * np.abs(want)), '%s: error %g', what,
          np.max(err, initial=0))


def weights(layer_obj, layer, what):
  """The weights known to Keras are exactly the cores and the bias."""
  want = [c.numpy() for c in layer_obj.matrix.tt_cores]
  if layer['bias']:
    want.append(layer_obj.b.numpy())
  else:
    require(layer_obj.b is None, '%s: there is a bias', what)
  got = layer_obj.trainable_weights
  require(len(got) == len(want), '%s: %d weights instead of %d', what,
          len(got), len(want))
  for g, w in zip(got, want):
    require(np.array_equal(np.asarray(g.numpy()), w), '%s: a weight differs',
            what)
  require(not layer_obj.non_trainable_weights, '%s: non-trainable', what)
  r = true_ranks(layer)
  count = sum(r[i] * n * m * r[i + 1]
              for i, (n, m) in enumerate(zip(layer['n'], layer['m'])))
  count += prod(layer['m']) if layer['bias'] else 0
  require(layer_obj.count_params() == count, '%s: %d parameters, not %d', what,
          layer_obj.count_params(), count)


def gen_forward(draw):
  return dict(layers=[gen_layer(draw)], num=gen.integer(draw, 1, 5),
              sparse=gen.flag(draw), f64=gen.flag(draw))


@CHECK.op('forward', gen_forward, quick=200)
def run_forward(case):
  layer = case['layers'][0]
  obj = build(layer)
  st = state(obj, layer, 'new layer')
  if layer['bias']:
    require(np.all(st[1] == np.float32(layer['b0'])), 'bias is %s', st[1])
  x = inputs(case, layer, case['num'])
  y = obj(tf.constant(x, tf.float64) if case['f64'] else x)
  _, want, scale = forward(x.astype(np.float64), st, layer['act'])
  judge(y, want, scale, layer['act'], 'output')
  weights(obj, layer, 'layer')
  require(tuple(obj.compute_output_shape((case['num'], prod(layer['n'])))) ==
          want.shape, 'output shape')
  require(tuple(obj.compute_output_shape((None, prod(layer['n'])))) ==
          (None, want.shape[1]), 'output shape of an unknown batch')
  # Other inputs and other weights.
  rng = np.random.RandomState(case['seed'] % 1000)
  obj.set_weights([rng.randn(*w.shape).astype(np.float32)
                   for w in obj.get_weights()])
  weights(obj, layer, 'after set_weights')
  st = state(obj, layer, 'after set_weights')
  x = inputs(dict(case, seed=case['seed'] + 1), layer, case['num'] + 2)
  _, want, scale = forward(x.astype(np.float64), st, layer['act'])
  judge(obj(x), want, scale, layer['act'], 'second output')


def gen_train(draw):
  acts = tuple(a for a in ACT if ACT[a][1] is not None)
  return dict(layers=[gen_layer(draw, acts=acts)], num=gen.integer(draw, 1, 4),
              steps=gen.integer(draw, 1, 2))


def core_gradients(cores, g):
  """Derivatives of <dense, g> by the entries of the cores."""
  res = []
  for k, c in enumerate(cores):
    grad = np.zeros(c.shape)
    for idx in np.ndindex(*c.shape):
      e = np.zeros(c.shape)
      e[idx] = 1
      grad[idx] = np.sum(core.contract(cores[:k] + [e] + cores[k + 1:], True,
                                       False) * g)
    res.append(grad)
  return res


@CHECK.op('train', gen_train, quick=40)
def run_train(case):
  """Steps of SGD on sum of squares, computed by hand."""
  layer = case['layers'][0]
  obj = build(layer)
  x = inputs(case, layer, case['num'])
  rng = np.random.RandomState(case['seed'] % 1000)
  # Weights of order one, so that all gradients are visible.
  obj(x)
  obj.set_weights([rng.uniform(0.3, 1, w.shape).astype(np.float32) *
                   rng.choice([-1, 1], w.shape) for w in obj.get_weights()])
  target = rng.randn(case['num'], prod(layer['m'])).astype(np.float32)
  opt = tf.keras.optimizers.SGD(learning_rate=0.01)
  for step in range(case['steps']):
    what = 'step %d' % step
    before = [w.astype(np.float64) for w in obj.get_weights()]
    st = state(obj, layer, what)
    x64 = x.astype(np.float64)
    pre, want, scale = forward(x64, st, layer['act'])
    if layer['act'] == 'relu' and np.any(np.abs(pre) < 1e-3 * scale):
      raise core.Skip('kink')
    gy = (want - target) * ACT[layer['act']][1](pre)
    with tf.GradientTape() as tape:
      loss = 0.5 * tf.reduce_sum((obj(x) - target) ** 2)
    grads = tape.gradient(loss, obj.trainable_weights)
    require(all(g is not None for g in grads), '%s: a weight has no gradient',
            what)
    gw = x64.T @ gy
    expected = core_gradients(st[0], gw)
    if layer['bias']:
      expected.append(gy.sum(axis=0))
    size = 1 + max(np.abs(e).max() for e in expected) + \
        np.abs(scale).max() * (1 + np.abs(scale).max()) * np.abs(x).max()
    for g, e in zip(grads, expected):
      core.close(core.to_np(g), e, size, 'float32', what + ': gradient')
    opt.apply_gradients(zip(grads, obj.trainable_weights))
    for old, new, e in zip(before, obj.get_weights(), expected):
      core.close(new, (old - 0.01 * e).astype(np.float32), size, 'float32',
                 what + ': updated weight')
    # The TT-matrix of the layer is made of the updated weights.
    weights(obj, layer, what)
  st = state(obj, layer, 'trained')
  _, want, scale = forward(x.astype(np.float64), st, layer['act'])
  judge(obj(x), want, scale, layer['act'], 'output of the trained layer')


def gen_model(draw):
  first = gen_layer(draw)
  layers = [first]
  if gen.flag(draw):
    layers.append(gen_layer(draw, n=first['m']))
  return dict(layers=layers, num=gen.integer(draw, 1, 4),
              how=gen.pick(draw, 'clone', 'config', 'weights', 'model',
                           'checkpoint'),
              functional=gen.flag(draw), fit=gen.flag(draw))


def make_model(case):
  layers = [build(l) for l in case['layers']]
  if case['functional']:
    inp = tf.keras.Input((prod(case['layers'][0]['n']),))
    out = inp
    for l in layers:
      out = l(out)
    return tf.keras.Model(inp, out), layers
  return tf.keras.Sequential(
      [tf.keras.Input((prod(case['layers'][0]['n']),))] + layers), layers


def predict(case, objs, x):
  y, scale = x.astype(np.float64), None
  for layer, obj in zip(case['layers'], objs):
    st = state(obj, layer, 'model')
    _, out, s = forward(y, st, layer['act'])
    if scale is not None:
      s = s + scale @ st[3] + scale.sum()
    y, scale = out, s
  return y, scale


@CHECK.op('model', gen_model, quick=24)
def run_model(case):
  """Models with such layers: prediction, fitting, cloning and saving."""
  model, objs = make_model(case)
  x = inputs(case, case['layers'][0], case['num'])
  act = case['layers'][-1]['act']

  def check(model, objs, what):
    want, scale = predict(case, objs, x)
    scale = np.maximum(scale, scale.max())
    judge(model(x), want, scale, act, what + ': call')
    judge(model.predict_on_batch(x), want, scale, act, what + ': predict')
    for layer, obj in zip(case['layers'], objs):
      weights(obj, layer, what)
    total = sum(w.size for w in model.get_weights())
    require(model.count_params() == total and
            total == sum(o.count_params() for o in objs),
            '%s: parameters of the model', what)
  check(model, objs, 'new model')
  if case['fit']:
    model.compile(optimizer=tf.keras.optimizers.SGD(0.01), loss='mse')
    before = model.get_weights()
    y = np.full((case['num'], prod(case['layers'][-1]['m'])), 3.0, np.float32)
    model.train_on_batch(x, y)
    moved = [not np.array_equal(a, b)
             for a, b in zip(before, model.get_weights())]
    if (act in (None, 'linear', 'softplus') and case['layers'][-1]['bias']):
      require(moved[-1], 'fitting did not change the bias')
    check(model, objs, 'fitted model')
  if case['how'] in ('clone', 'config'):
    # Arrays as dimensions are not serializable configurations.
    if any(l['dims'] == 'array' for l in case['layers']):
      raise core.Skip('arrays in the configuration')
    if case['how'] == 'clone':
      other = tf.keras.models.clone_model(model)
    else:
      other = type(model).from_config(
          model.get_config(), custom_objects={'KerasDense': KerasDense})
    fresh = [l for l in other.layers if isinstance(l, KerasDense)]
    other.set_weights(model.get_weights())
  else:
    if case['how'] == 'model' and any(l['dims'] == 'array'
                                      for l in case['layers']):
      raise core.Skip('arrays in the configuration')
    tmp = tempfile.mkdtemp(prefix='t3f-c22-')
    try:
      if case['how'] == 'weights':
        path = os.path.join(tmp, 'm.weights.h5')
        model.save_weights(path)
        other, fresh = make_model(case)
        other.load_weights(path)
      elif case['how'] == 'model':
        path = os.path.join(tmp, 'm.keras')
        model.save(path)
        other = tf.keras.models.load_model(
            path, custom_objects={'KerasDense': KerasDense})
        fresh = [l for l in other.layers if isinstance(l, KerasDense)]
      else:
        path = tf.train.Checkpoint(model=model).save(os.path.join(tmp, 'c'))
        other, fresh = make_model(case)
        tf.train.Checkpoint(model=other).restore(path).expect_partial()
    finally:
      shutil.rmtree(tmp)
  require(len(fresh) == len(objs), 'layers were lost')
  for a, b in zip(model.get_weights(), other.get_weights()):
    require(np.array_equal(a, b), '%s: a weight was not restored', case['how'])
  check(other, fresh, case['how'])
  y1, y2 = core.to_np(model(x)), core.to_np(other(x))
  require(np.array_equal(y1, y2), '%s: the outputs differ', case['how'])
  # The copies do not share their weights.
  old = [w.copy() for w in model.get_weights()]
  other.set_weights([w + 1 for w in other.get_weights()])
  for a, b in zip(old, model.get_weights()):
    require(np.array_equal(a, b), 'weights are shared')


def gen_spread(draw):
  d = gen.integer(draw, 1, 2)
  lo, hi = (30, 60) if d == 1 else (20, 40)
  n = [gen.integer(draw, lo, hi) for _ in range(d)]
  k = gen.pick(draw, 2, 3)
  m = [max(12, a // k) for a in n]
  if gen.flag(draw):
    n, m = m, n
  return dict(layers=[dict(n=n, m=m, r=gen.integer(draw, 1, 3),
                           style='number', act=None, bias=True, b0=0.1,
                           init=gen.pick(draw, 'glorot', 'he', 'lecun'),
                           dims='list')])


@CHECK.op('spread', gen_spread, quick=40)
def run_spread(case):
  """The deviation of the new matrix is the one of the named scheme."""
  layer = case['layers'][0]
  obj = build(layer)
  cores = state(obj, layer, 'layer')[0]
  rows, cols = prod(layer['n']), prod(layer['m'])
  var = {'glorot': 2.0 / (rows + cols), 'he': 2.0 / rows,
         'lecun': 1.0 / rows}[layer['init']]
  got = float(prod(true_ranks(layer)))
  # Each core has at least 240 independent entries.
  dev = 0.0
  for c in cores:
    got *= np.mean(c ** 2)
    dev += 2.0 / c.size
  require(abs(np.log(got / var)) < 6 * np.sqrt(dev),
          'variance is %g instead of %g', got, var)


def gen_bad(draw):
  layer = gen_layer(draw)
  return dict(layers=[layer], fault=gen.pick(draw, 'init', 'act', 'dims',
                                             'input', 'ranks'),
              text=gen.pick(draw, 'foo', 'Glorot', '', 'normal', 'uniform'),
              num=gen.integer(draw, 1, 3))


@CHECK.op('rejects', gen_bad, quick=80)
def run_bad(case):
  layer = dict(case['layers'][0])
  x = inputs(case, layer, case['num'])
  if case['fault'] == 'init':
    must_raise(lambda: build(dict(layer, init=case['text'])), ValueError,
               'initializer %r' % case['text'])
  elif case['fault'] == 'act':
    # Either at the construction or at the first call.
    must_raise(lambda: build(dict(layer, act='foo'))(x), ValueError,
               'unknown activation')
  elif case['fault'] == 'dims':
    must_raise(lambda: build(dict(layer, m=layer['m'] + [2])), Exception,
               'different numbers of input and output dimensions')
  elif case['fault'] == 'input':
    obj = build(layer)
    must_raise(lambda: obj(np.concatenate([x, x[:, :1]], axis=1)), Exception,
               'inputs of a wrong width')
  else:
    r = true_ranks(layer) + [1]
    r.insert(1, 2)
    must_raise(lambda: build(dict(layer, style='list', r=r)), Exception,
               'wrong number of ranks')
