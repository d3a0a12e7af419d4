"""C31: graphs and sessions in the style of TensorFlow 1."""
import numpy as np
import tensorflow as tf
import t3f
from harness import catalog, core, gen
from harness.checks import c23
from harness.core import require

CHECK = core.Check('C31', rule=(
    'A case counts if some TT-object has at least two cores and a TT-rank '
    'above 1 (or the operation takes a dense array); distinct by JSON.'),
    nontrivial=lambda c: any(core.spec_nontrivial(s) for s in
                             core.specs_in(c)) or not c.get('tt', True) or
    c.get('f', '').startswith(('kron', 'tensor', 'matrix', 'eye')),
    assumptions=['eager execution is judged by the other properties and taken '
                 'as the truth here'])
v1 = tf.compat.v1


class Graph(c23.Traced):
  """A catalog operation in a graph whose leaves are placeholders."""

  def __init__(self, case, tts, arrays, mode, unknown):
    self.case = case
    self.keys, self.arr_keys = sorted(tts), sorted(arrays)
    self.lens = [len(tts[k].cores) for k in self.keys]
    self.batch = [tts[k].bs is not None for k in self.keys]
    self.info = {}
    hide = case.get('hide', 0)
    specs = [s for i, k in enumerate(self.keys)
             for s in c23.signature(tts[k].cores, tts[k].bs, mode, hide + i)]
    specs += [tf.TensorSpec(arrays[k].shape if unknown is None else
                            c23.unknown_shape(case['f'], arrays[k], unknown),
                            arrays[k].dtype) for k in self.arr_keys]
    self.graph = tf.Graph()
    with self.graph.as_default():
      self.leaves = [v1.placeholder(s.dtype, s.shape) for s in specs]
      self.out = self._trace(*self.leaves)

  def feed(self, tts, arrays):
    values = [c for k in self.keys for c in tts[k].cores]
    values += [arrays[k] for k in self.arr_keys]
    return dict(zip(self.leaves, values))

  def __call__(self, tts, arrays):
    with v1.Session(graph=self.graph) as session:
      return session.run(self.out, self.feed(tts, arrays))


def gen_static(draw):
  return catalog.gen_case(draw)


@CHECK.op('static', gen_static, quick=450)
def static(case):
  tts, arrays = catalog.arguments(case)
  g = Graph(case, tts, arrays, 'static', None)
  c23.judge(case, tts, arrays, g(tts, arrays), g.info, case['f'], True)
  other = c23.reseeded(case)
  tts, arrays = catalog.arguments(other)
  c23.judge(other, tts, arrays, g(tts, arrays), g.info, case['f'] +
            ', other values', True)


def gen_unknown(draw):
  case = catalog.gen_case(draw, [k for k in sorted(catalog.ENTRIES) if
                                 not catalog.ENTRIES[k].static_only or
                                 k in c23.ARRAYS])
  case['mode'] = gen.pick(draw, *c23.MODES)
  case['hide'] = gen.integer(draw, 0, 10 ** 6)
  case['unknown'] = None
  if case['f'] in c23.ARRAYS and gen.flag(draw):
    case['unknown'] = gen.pick(draw, 255, gen.integer(draw, 0, 255))
  return case


@CHECK.op('unknown', gen_unknown, quick=450)
def unknown(case):
  """Placeholders of partially unknown shapes."""
  mode = case['mode']
  if case['f'] == 'squeeze' and mode in ('batch', 'all', 'mixed'):
    raise core.Skip('documented to need the size at the compilation stage')
  tts, arrays = catalog.arguments(case)
  try:
    g = Graph(case, tts, arrays, mode, case['unknown'])
    out = g(tts, arrays)
  except Exception:  # pylint: disable=broad-except
    if c23.unsupported(case, mode):
      raise core.Skip('unsupported')
    raise
  what = '%s with unknown %s' % (case['f'], mode)
  c23.judge(case, tts, arrays, out, g.info, what, False)
  if case['arr'] or mode in ('static', 'mixed'):
    return
  other = c23.resized(case, mode)
  tts, arrays = catalog.arguments(other)
  c23.judge(other, tts, arrays, g(tts, arrays), g.info,
            what + ', other sizes', False)


# -------------------------------------------------------- name, graph, op, eval


SCOPES = ('a', 'outer/inner', 'x1', 'a/b/a', 'core_0/p/q/core_1',
          'a/b/c/d/e')


def gen_object(draw):
  x = gen.tt(draw, size=100, maxr=3)
  return dict(x=x, k=gen.integer(draw, 0, len(x['n']) - 1),
              how=gen.pick(draw, 'eval', 'eval', 'op', 'assign'),
              session=gen.flag(draw), feed=gen.flag(draw),
              scope=gen.pick(draw, *SCOPES),
              kind=gen.pick(draw, 'constant', 'placeholder'))


@CHECK.op('object', gen_object, quick=500)
def object_(case):
  """`op` and `eval` execute what each of the cores needs."""
  s = case['x']
  values = core.np_cores(s)
  graph = tf.Graph()
  with graph.as_default():
    count = v1.get_variable('count', [], tf.int32, v1.zeros_initializer(),
                            use_resource=True)
    feed, cores = {}, []
    with tf.name_scope(case['scope']):
      for k, v in enumerate(values):
        if case['kind'] == 'placeholder':
          c = v1.placeholder(v.dtype, v.shape)
          feed[c] = v
        else:
          c = tf.constant(v)
        with tf.control_dependencies([count.assign_add(1)] if k == case['k']
                                     else []):
          cores.append(tf.identity(c, name='core_%d' % k))
    cls = t3f.TensorTrain if s['bs'] is None else t3f.TensorTrainBatch
    obj = cls(cores)
    require(obj.graph is graph, 'graph')
    require(obj.name == case['scope'], 'name is %s instead of %s', obj.name,
            case['scope'])
    require(not obj.is_variable(), 'is_variable')
    op = obj.op
    require(isinstance(op, tf.Operation) and op.graph is graph, 'op is %s', op)
    init = v1.global_variables_initializer()
  with v1.Session(graph=graph) as session:
    session.run(init)
    if case['how'] == 'op':
      session.run(op, feed)
    else:
      kw = {'feed_dict': feed} if feed else {}
      if case['session']:
        kw['session'] = session
      obj.eval(**kw)
    got = session.run(count)
    require(got == 1, '%s executed core %d %d times', case['how'], case['k'],
            got)
  if case['kind'] == 'placeholder':
    with v1.Session(graph=graph) as session:
      session.run(init)
      core.must_raise(lambda: obj.eval(session=session), Exception,
                      'eval without the values of placeholders')


# ------------------------------------------------------------------- leaves


CONSTANTS = ('tensor_ones', 'tensor_zeros', 'matrix_ones', 'matrix_zeros',
             'eye')
RANDOM = ('random_tensor', 'tensor_with_random_cores', 'random_tensor_batch',
          'tensor_batch_with_random_cores', 'random_matrix',
          'matrix_with_random_cores', 'random_matrix_batch',
          'matrix_batch_with_random_cores', 'glorot_initializer',
          'he_initializer', 'lecun_initializer')


def gen_leaf(draw):
  f = gen.pick(draw, *(CONSTANTS + RANDOM))
  if 'tensor' in f or f == 'eye':
    n, m = gen.modes(draw, size=30 if f == 'eye' else 200, maxd=5), None
  else:
    n, m = gen.matrix_modes(draw, size=300, maxd=4)
  return dict(f=f, n=n, m=m, r=gen.ranks(draw, len(n), 3),
              b=gen.integer(draw, 1, 4), dt=gen.dtype(draw),
              use=gen.pick(draw, 'full', 'norm', 'sum'), tt={}, arr={}, p={})


def make_leaf(case):
  f = case['f']
  kw = dict(dtype=tf.as_dtype(case['dt']))
  if f in RANDOM:
    kw['tt_rank'] = case['r']
  if 'batch' in f:
    kw['batch_size'] = case['b']
  shape = case['n'] if case['m'] is None else [case['n'], case['m']]
  return getattr(t3f, f)(shape, **kw)


@CHECK.op('leaf', gen_leaf, quick=300)
def leaf(case):
  """Constructors: constants are exact, random cores are drawn once per run."""
  f = case['f']
  graph = tf.Graph()
  with graph.as_default():
    obj = make_leaf(case)
    require(obj.graph is graph, '%s: graph', f)
    batch = isinstance(obj, t3f.TensorTrainBatch)
    require(batch == ('batch' in f), '%s: kind %s', f, type(obj))
    static = [core.as_int_list(s) for s in obj.get_raw_shape()]
    if case['use'] == 'full':
      value = t3f.full(obj)
    elif case['use'] == 'norm':
      value = t3f.frobenius_norm_squared(obj)
    else:
      value = t3f.full(obj + obj)
    fetch = [list(obj.tt_cores), value]
  with v1.Session(graph=graph) as session:
    runs = [session.run(fetch) for _ in range(2)]
  eager = core.check_queries(make_leaf(case), f)
  for cores, value in runs:
    q = core.check_queries(core.make_tt(cores, batch), f)
    require(q == eager, '%s: %s, eager has %s', f, q, eager)
    require(static == [q['n']] + ([q['m']] if q['matrix'] else []),
            '%s: static shape %s, actual %s', f, static, q)
    ref = core.ref_of_cores(cores, q['matrix'], batch, case['dt'])
    if case['use'] == 'norm':
      axes = tuple(range(1 if batch else 0, ref.d.ndim))
      want = np.sum(ref.d ** 2, axis=axes)
      scale = np.max(ref.q) ** 2
    else:
      want = ref.d * (1 if case['use'] == 'full' else 2)
      scale = 4 * np.max(ref.q)
    core.close(value, want, scale, case['dt'], '%s of %s' % (case['use'], f))
  same = all(np.array_equal(a, b) for a, b in zip(runs[0][0], runs[1][0]))
  if f in CONSTANTS:
    mine = core.result_cores(make_leaf(case))
    require(same and all(np.array_equal(a, b) for a, b in
                         zip(runs[0][0], mine)), '%s: values', f)
  else:
    require(not same, '%s: two runs of a session gave the same numbers', f)


# ------------------------------------------------------------------ variables


def gen_variable(draw):
  x = gen.tt(draw, size=100, maxr=3)
  y = dict(x, seed=gen.seed(draw))
  return dict(x=x, y=y, how=gen.pick(draw, 'result', 'op', 'eval'),
              scope=gen.pick(draw, '', 's', *SCOPES),
              name=gen.pick(draw, 'v', 'w', 'deep/v'))


@CHECK.op('variable', gen_variable, quick=300)
def variable(case):
  """Variables: initial values, and assignments executed through the result,
  its `op` or its `eval`."""
  x, y = core.Arg(case['x']), core.Arg(case['y'])
  batch = x.bs is not None
  graph = tf.Graph()
  with graph.as_default():
    with v1.variable_scope(case['scope'] or v1.get_variable_scope()):
      var = t3f.get_variable(case['name'],
                             initializer=core.make_tt(x.cores, batch))
    require(var.is_variable(), 'is_variable')
    require(var.graph is graph, 'graph')
    name = '/'.join(s for s in (case['scope'], case['name']) if s)
    require(var.name == name, 'name is %s instead of %s', var.name, name)
    new = t3f.assign(var, core.make_tt(y.cores, batch))
    full = t3f.full(var)
    full_new = t3f.full(new)
    op = new.op
    init = v1.global_variables_initializer()
  with v1.Session(graph=graph) as session:
    session.run(init)
    got = session.run(full)
    core.close(got, x.d, x.a, x.dtype, 'the initial value')
    var.eval()
    core.close(session.run(full), x.d, x.a, x.dtype, 'the value after eval')
    if case['how'] == 'result':
      core.close(session.run(full_new), y.d, y.a, x.dtype,
                 'the result of assign')
    elif case['how'] == 'op':
      session.run(op)
    else:
      new.eval(session=session)
    core.close(session.run(full), y.d, y.a, x.dtype, 'the assigned value')
    session.run(init)
    core.close(session.run(full), x.d, x.a, x.dtype, 'the value after a reset')
