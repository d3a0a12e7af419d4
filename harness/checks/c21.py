"""C21: histories of TT-variables."""
import numpy as np
import tensorflow as tf
import t3f
from harness import core, gen
from harness.core import Arg, require, must_raise

tf1 = tf.compat.v1

CHECK = core.Check('C21', rule=(
    'A case counts if its history has at least two assignments; distinct by '
    'JSON.'),
    nontrivial=lambda c: sum(s['do'] == 'assign' for s in c.get('steps', [])
                             ) > 1,
    assumptions=['the model is a dictionary from variables to dense NumPy '
                 'values', 'assigned values have the TT-ranks of the variable '
                 '(shapes of its cores are fixed)'])


def gen_history(draw, graph=False):
  x = gen.tt(draw, size=60, maxr=3, fills=('normal', 'int', 'pos', 'scaled',
                                           'zero'))
  num = gen.integer(draw, 1, 3)

  def value():
    v = gen.like(draw, x, bs=x['bs'], fills=('normal', 'int', 'pos', 'zero'))
    v['r'] = list(x['r'])
    return v
  variables = [dict(init=value(), trainable=gen.flag(draw),
                    kind=gen.pick(draw, 'tensor', 'tensor', 'variable'))
               for _ in range(num)]
  steps = []
  for _ in range(gen.integer(draw, 2, 5 if graph else 9)):
    do = gen.pick(draw, 'assign', 'assign', 'assign', 'read', 'snapshot')
    s = dict(do=do, i=gen.integer(draw, 0, num - 1))
    if do == 'assign':
      s['how'] = gen.pick(draw, 'constant', 'constant', 'variable', 'scaled',
                          'negated', 'other-scaled', 'product')
      s['j'] = gen.integer(draw, 0, num - 1)
      s['c'] = gen.pick(draw, 2.0, -0.5, 0.0)
      if s['how'] == 'constant':
        s['v'] = value()
      elif s['how'] == 'product':
        s['v'] = value()
        s['v']['r'] = [1] * len(x['r'])
    elif do == 'snapshot':
      s['how'] = gen.pick(draw, 'sum', 'scaled', 'full', 'cores')
    steps.append(s)
  return dict(vars=variables, steps=steps, dtype=gen.flag(draw))


class Model(object):
  """Values of variables, with scales for round-off."""

  def __init__(self):
    self.d, self.a = [], []

  def expression(self, s):
    """(dense value, scale) of the assigned value."""
    d, a = self.d, self.a
    i, j = s['i'], s['j']
    if s['how'] == 'constant':
      v = Arg(s['v'])
      return v.d, v.a
    if s['how'] == 'variable':
      return d[j], a[j]
    if s['how'] == 'scaled':
      return d[i] * s['c'], a[i] * abs(s['c'])
    if s['how'] == 'negated':
      return -d[i], a[i]
    if s['how'] == 'other-scaled':
      return d[j] * s['c'], a[j] * abs(s['c'])
    v = Arg(s['v'])
    return d[i] * v.d, a[i] * v.a


def expression(s, objs):
  i, j = s['i'], s['j']
  if s['how'] == 'constant':
    return Arg(s['v']).tt
  if s['how'] == 'variable':
    return objs[j]
  if s['how'] == 'scaled':
    return objs[i] * s['c']
  if s['how'] == 'negated':
    return -objs[i]
  if s['how'] == 'other-scaled':
    return s['c'] * objs[j]
  return t3f.multiply(objs[i], Arg(s['v']).tt)


def initializer(spec, kind):
  x = Arg(spec)
  if kind == 'variable':
    cls = t3f.TensorTrain if x.bs is None else t3f.TensorTrainBatch
    return x, cls([tf.Variable(c) for c in x.cores], convert_to_tensors=False)
  return x, x.tt


def same(obj, d, a, spec, what):
  ref = core.Ref(d, a, spec['n'], spec['m'], spec['bs'], spec['dtype'])
  _, ranks = core.expect_tt(obj, ref, what, tol=10 * core.TOL[spec['dtype']])
  require(ranks == spec['r'], '%s: ranks %s', what, ranks)


@CHECK.op('eager', gen_history, quick=500)
def eager(case):
  model, objs, inits = Model(), [], []
  for k, v in enumerate(case['vars']):
    x, init = initializer(v['init'], v['kind'])
    kw = {'dtype': tf.as_dtype(x.dtype)} if case['dtype'] else {}
    obj = t3f.get_variable('v%d' % k, initializer=init,
                           trainable=v['trainable'], **kw)
    require(obj.is_variable(), 'not a variable')
    for c, core_var in enumerate(obj.tt_cores):
      require(isinstance(core_var, tf.Variable), 'core %d is not a variable', c)
      require(bool(core_var.trainable) == v['trainable'], 'trainable')
      require(core_var.name == 'v%d/core_%d:0' % (k, c), 'name %s',
              core_var.name)
    require(obj.name == 'v%d' % k, 'name of the variable is %s', obj.name)
    objs.append(obj)
    inits.append(init)
    model.d.append(x.d)
    model.a.append(x.a)
    same(obj, x.d, x.a, v['init'], 'new variable')
  snapshots = []
  spec = case['vars'][0]['init']
  for num, s in enumerate(case['steps']):
    i = s['i']
    what = 'step %d (%s)' % (num, s['do'])
    if s['do'] == 'assign':
      value = expression(s, objs)
      d, a = model.expression(s)
      res = t3f.assign(objs[i], value)
      model.d[i], model.a[i] = d, a
      same(res, d, a, dict(spec, r=core.as_int_list(value.get_tt_ranks())),
           what + ', result')
      if s['how'] in ('constant', 'variable'):
        # Nothing is computed, so the values are the same numbers.
        for p, q in zip(objs[i].tt_cores, value.tt_cores):
          require(np.array_equal(p.numpy(), q.numpy()), '%s: cores differ from '
                  'the assigned ones', what)
    elif s['do'] == 'read':
      scale = core.item_max(model.a[i], spec['bs'])
      core.expect_dense(t3f.full(objs[i]), model.d[i], scale, spec['dtype'],
                        what, tol=10 * core.TOL[spec['dtype']])
    else:
      d, a = model.d[i], model.a[i]
      if s['how'] == 'sum':
        obj = objs[i] + objs[0]
        d, a = d + model.d[0], a + model.a[0]
      elif s['how'] == 'scaled':
        obj = objs[i] * 1.5
        d, a = 1.5 * d, 1.5 * a
      elif s['how'] == 'full':
        obj = t3f.full(objs[i])
      else:
        cls = t3f.TensorTrain if spec['bs'] is None else t3f.TensorTrainBatch
        obj = cls(objs[i].tt_cores)
      snapshots.append((obj, d, a))
    # Nothing else has changed.
    for k, obj in enumerate(objs):
      same(obj, model.d[k], model.a[k], spec, '%s: variable %d' % (what, k))
      require(obj.is_variable(), '%s: lost the variable', what)
    for obj, d, a in snapshots:
      scale = core.item_max(a, spec['bs'])
      got = obj if not core.is_tt(obj) else t3f.full(obj)
      core.expect_dense(got, d, scale, spec['dtype'],
                        what + ': an earlier result',
                        tol=10 * core.TOL[spec['dtype']])
  for v, init in zip(case['vars'], inits):
    x = Arg(v['init'])
    for c, want in zip(init.tt_cores, x.cores):
      require(np.array_equal(c.numpy(), want), 'the initializer was changed')


def gen_graph(draw):
  case = gen_history(draw, graph=True)
  for v in case['vars']:
    v['kind'] = 'tensor'
  # Names which are parts of each other.
  where = []
  for _ in case['vars']:
    place = [gen.pick(draw, *SCOPES), gen.pick(draw, *NAMES)]
    if place in where:
      place = [p for p in ([s, place[1]] for s in sorted(set(SCOPES)))
               if p not in where][0]
    where.append(place)
  case['where'] = where
  case['absent'] = [gen.pick(draw, *SCOPES), gen.pick(draw, *NAMES)]
  return case


SCOPES = ('', '', 'one', 'two', 'one/two', 'v')
NAMES = ('v', 'v', 'w', 'vv', 'v_1')


def close_all(sess, objs, model, spec, what):
  for k, full in enumerate(objs):
    scale = core.item_max(model.a[k], spec['bs'])
    core.close(sess.run(full), model.d[k], scale, spec['dtype'],
               '%s: variable %d' % (what, k), tol=10 * core.TOL[spec['dtype']])


@CHECK.op('graph', gen_graph, quick=100)
def graph(case):
  """The same in graph mode: collections, scopes and reuse."""
  spec = case['vars'][0]['init']
  model = Model()
  with tf.Graph().as_default():
    scope = lambda k, **kw: tf1.variable_scope(case['where'][k][0], **kw)
    name = lambda k: case['where'][k][1]
    objs, losses = [], []
    for k, v in enumerate(case['vars']):
      x = Arg(v['init'])
      with scope(k):
        obj = t3f.get_variable(
            name(k), initializer=x.tt, trainable=v['trainable'],
            dtype=tf.as_dtype(x.dtype),
            regularizer=t3f.l2_regularizer(0.5) if v['trainable'] else None)
      objs.append(obj)
      model.d.append(x.d)
      model.a.append(x.a)
      want = '/'.join(p for p in case['where'][k] if p)
      require(obj.name == want, 'name %s instead of %s', obj.name, want)
      for c, var in enumerate(obj.tt_cores):
        require(var.name == '%s/core_%d:0' % (want, c), 'name of a core %s',
                var.name)
      if v['trainable']:
        losses.append(0.5 * (x.d ** 2).reshape(x.bs or 1, -1).sum(1))
    # Collections.
    want = [c.name for o, v in zip(objs, case['vars']) if v['trainable']
            for c in o.tt_cores]
    got = [c.name for c in tf1.trainable_variables()]
    require(sorted(got) == sorted(want), 'trainable variables %s', got)
    got = [c.name for c in tf1.global_variables()]
    require(sorted(got) == sorted(c.name for o in objs for c in o.tt_cores),
            'global variables %s', got)
    # Reuse.
    for k, obj in enumerate(objs):
      with scope(k, reuse=True):
        again = t3f.get_variable(name(k), dtype=obj.dtype)
      require(again is obj or [a.name for a in again.tt_cores] ==
              [a.name for a in obj.tt_cores], 'another variable is found: %s '
              'instead of %s', again.name, obj.name)
      require(again.name == obj.name, 'name of the found variable')
      with scope(k):
        must_raise(lambda: t3f.get_variable(
            name(k), initializer=Arg(case['vars'][k]['init']).tt), ValueError,
                   'the second creation')
    if case['absent'] not in case['where']:
      with tf1.variable_scope(case['absent'][0], reuse=True):
        must_raise(lambda: t3f.get_variable(case['absent'][1],
                                            dtype=obj.dtype),
                   ValueError, 'reuse of an absent variable')
    with scope(0, reuse=True):
      must_raise(lambda: t3f.get_variable('absent', dtype=obj.dtype),
                 ValueError, 'reuse of an absent variable')
    with tf1.variable_scope('plain'):
      # Of the same name, but not a TT-object.
      tf1.get_variable('%s/core_0' % name(0), shape=obj.tt_cores[0].shape,
                       dtype=obj.dtype, trainable=False, collections=['other'])
    with tf1.variable_scope('plain', reuse=True):
      must_raise(lambda: t3f.get_variable(name(0), dtype=obj.dtype),
                 ValueError, 'reuse of a variable which is not a TT-object')
    with tf1.variable_scope('elsewhere', reuse=True):
      must_raise(lambda: t3f.get_variable(name(0), dtype=obj.dtype),
                 ValueError, 'reuse in another scope')
    with scope(0):
      must_raise(lambda: t3f.get_variable('new'), ValueError,
                 'creation without an initializer')
    reg = tf1.get_collection(tf1.GraphKeys.REGULARIZATION_LOSSES)
    require(len(reg) == len(losses), '%d regularization losses instead of %d',
            len(reg), len(losses))
    ops, fulls = [], [t3f.full(o) for o in objs]
    for s in case['steps']:
      op = None
      if s['do'] == 'assign':
        res = t3f.assign(objs[s['i']], expression(s, objs))
        op = list(res.tt_cores)
      ops.append(op)
    with tf1.Session() as sess:
      sess.run(tf1.global_variables_initializer())
      close_all(sess, fulls, model, spec, 'start')
      for t, want in zip(reg, losses):
        want = want if spec['bs'] is not None else want[0]
        q = max(np.max(core.Arg(v['init']).q) for v in case['vars'])
        core.close(sess.run(t), want, 1 + q ** 2, spec['dtype'],
                   'regularization loss')
      for num, (s, op) in enumerate(zip(case['steps'], ops)):
        if op is not None:
          d, a = model.expression(s)
          sess.run(op)
          model.d[s['i']], model.a[s['i']] = d, a
        close_all(sess, fulls, model, spec, 'step %d' % num)


def gen_compiled(draw):
  case = gen_history(draw, graph=True)
  for v in case['vars']:
    v['kind'] = 'tensor'
  return case


@CHECK.op('compiled', gen_compiled, quick=40)
def compiled(case):
  """A history inside of one tf.function, called twice."""
  spec = case['vars'][0]['init']
  model, objs = Model(), []
  for k, v in enumerate(case['vars']):
    x = Arg(v['init'])
    objs.append(t3f.get_variable('v%d' % k, initializer=x.tt))
    model.d.append(x.d)
    model.a.append(x.a)

  @tf.function
  def run():
    for s in case['steps']:
      if s['do'] == 'assign':
        t3f.assign(objs[s['i']], expression(s, objs))
    return [t3f.full(o) for o in objs]
  for call in range(2):
    got = run()
    for s in case['steps']:
      if s['do'] == 'assign':
        d, a = model.expression(s)
        model.d[s['i']], model.a[s['i']] = d, a
    for k, obj in enumerate(objs):
      scale = core.item_max(model.a[k], spec['bs'])
      tol = 20 * core.TOL[spec['dtype']]
      core.close(got[k].numpy(), model.d[k], scale, spec['dtype'],
                 'returned value %d' % k, tol=tol)
      same(obj, model.d[k], model.a[k], spec, 'variable %d' % k)


def gen_bad(draw):
  x = gen.tt(draw, size=60, maxr=3, mind=2, fills=gen.REGULAR)
  fault = gen.pick(draw, 'rank', 'mode', 'dtype', 'no-init')
  return dict(x=x, fault=fault, k=gen.integer(draw, 0, len(x['n']) - 1))


@CHECK.op('rejects', gen_bad, quick=80)
def rejects(case):
  x = Arg(case['x'])
  fault, k = case['fault'], case['k']
  if fault == 'no-init':
    must_raise(lambda: t3f.get_variable('v'), ValueError, 'no initializer')
    return
  other = 'float32' if x.dtype == 'float64' else 'float64'
  if fault == 'dtype':
    must_raise(lambda: t3f.get_variable('v', initializer=x.tt,
                                        dtype=tf.as_dtype(other)),
               ValueError, 'dtype of the initializer differs')
    bad = dict(case['x'], dtype=other)
  elif fault == 'rank':
    r = list(x.r)
    r[max(k, 1)] += 1
    bad = dict(case['x'], r=r)
  else:
    n = list(x.n)
    n[k] += 1
    bad = dict(case['x'], n=n)
  v = t3f.get_variable('v', initializer=x.tt)
  must_raise(lambda: t3f.assign(v, Arg(bad).tt), Exception,
             'assignment of another shape')
