"""C34: operations inside of control flow, datasets, exported models, threads."""
import os
import shutil
import tempfile
import threading
import numpy as np
import tensorflow as tf
from harness import catalog, core, gen
from harness.checks import c23
from harness.core import require

CHECK = core.Check('C34', rule=(
    'A case counts if some TT-argument has at least two cores and a TT-rank '
    'above 1 (or the operation takes a dense array); distinct by JSON.'),
    nontrivial=lambda c: any(core.spec_nontrivial(s) for s in
                             core.specs_in(c)) or not c['tt'] or
    c['f'].startswith('kron'),
    assumptions=['eager execution in the main thread is judged by the other '
                 'properties and taken as the truth here'])


class Op(c23.Traced):
  """A catalog operation as a function of a list of tensors."""

  def __init__(self, case):
    self.case = case
    self.cases = [case]
    for _ in range(2):
      self.cases.append(c23.reseeded(self.cases[-1]))
    self.data = [catalog.arguments(c) for c in self.cases]
    tts, arrays = self.data[0]
    self.keys, self.arr_keys = sorted(tts), sorted(arrays)
    self.lens = [len(tts[k].cores) for k in self.keys]
    self.batch = [tts[k].bs is not None for k in self.keys]
    self.info = {}
    self.specs = [tf.TensorSpec(x.shape, x.dtype) for x in self.leaves(0)]

  def leaves(self, i):
    """Arguments of the i-th of the cases."""
    tts, arrays = self.data[i]
    return [c for k in self.keys for c in tts[k].cores] + [
        arrays[k] for k in self.arr_keys]

  def tensors(self, i):
    return [tf.constant(x) for x in self.leaves(i)]

  def stacked(self):
    return tuple(tf.constant(np.stack(x)) for x in zip(
        *[self.leaves(i) for i in range(3)]))

  def body(self, *tensors):
    return self._trace(*tensors)

  def plain(self, *tensors):
    """The results themselves."""
    return catalog.call(self.case, *self.objects(tensors))

  def flat(self, *tensors):
    """Results as a flat tuple."""
    out = self.body(*tensors)
    self.sizes = [len(o) for o in out]
    return tuple(t for o in out for t in o)

  def group(self, flat):
    flat, res = list(flat), []
    for n in self.sizes:
      res.append(flat[:n])
      flat = flat[n:]
    return res

  def signature(self):
    """Specifications of the flat results."""
    return tuple(tf.TensorSpec(t.shape, t.dtype) for t in
                 self.flat(*self.tensors(0)))

  def judge(self, i, out, what, static=True):
    tts, arrays = self.data[i]
    c23.judge(self.cases[i], tts, arrays, out, self.info, '%s in %s' % (
        self.case['f'], what), static)


def context(name, quick):
  def deco(fn):
    def gen_(draw):
      return catalog.gen_case(draw)
    def run(case):
      fn(Op(case))
    run.__doc__ = fn.__doc__
    CHECK.op(name, gen_, quick=quick)(run)
    return fn
  return deco


@context('cond', 80)
def cond(op):
  """Branches work on different arguments."""
  @tf.function(input_signature=[tf.TensorSpec([], tf.bool)] + op.specs * 2)
  def fn(p, *args):
    n = len(args) // 2
    return tf.cond(p, lambda: op.flat(*args[:n]), lambda: op.flat(*args[n:]))
  args = op.tensors(0) + op.tensors(1)
  for i, p in enumerate([True, False]):
    op.judge(i, op.group(fn(tf.constant(p), *args)), 'a branch')


@context('loop', 80)
def loop(op):
  """A while loop runs the operation on other arguments every time."""
  sig = op.signature()
  @tf.function(input_signature=[tf.TensorSpec((3,) + tuple(s.shape), s.dtype)
                                for s in op.specs])
  def fn(*args):
    return tf.map_fn(lambda xs: op.flat(*xs), args, fn_output_signature=sig)
  out = fn(*op.stacked())
  for i in range(3):
    op.judge(i, op.group([t[i] for t in out]), 'a loop')


@context('nested', 60)
def nested(op):
  """A compiled function called by a compiled function twice."""
  inner = tf.function(op.flat, input_signature=op.specs)
  @tf.function
  def outer(a, b):
    with tf.name_scope('outer'):
      return inner(*a), inner(*b)
  out = outer(op.tensors(0), op.tensors(1))
  for i in range(2):
    op.judge(i, op.group(out[i]), 'a nested function')


@context('dataset', 80)
def dataset(op):
  """The operation maps the elements of a dataset, in parallel."""
  ds = tf.data.Dataset.from_tensor_slices(op.stacked())
  ds = ds.map(op.flat, num_parallel_calls=3)
  got = list(ds)
  require(len(got) == 3, 'the dataset has %d elements', len(got))
  for i, out in enumerate(got):
    op.judge(i, op.group(out), 'a dataset')


@context('export', 30)
def export(op):
  """The operation is saved as a model and loaded again."""
  module = tf.Module()
  module.f = tf.function(op.flat, input_signature=op.specs)
  where = tempfile.mkdtemp(prefix='c34-')
  try:
    tf.saved_model.save(module, os.path.join(where, 'model'))
    loaded = tf.saved_model.load(os.path.join(where, 'model'))
    for i in range(2):
      op.judge(i, op.group(loaded.f(*op.tensors(i))), 'a loaded model')
  finally:
    shutil.rmtree(where)


@context('tape', 300)
def tape(op):
  """Eager execution that is recorded for derivatives."""
  args = op.tensors(0)
  watched = [a for a in args if a.dtype.is_floating]
  with tf.GradientTape(persistent=True) as t:
    t.watch(watched)
    with tf.device('/CPU:0'), tf.name_scope('some'):
      out = op.body(*args)
  op.judge(0, out, 'a tape')


@context('callback', 150)
def callback(op):
  """Eager execution requested by a graph."""
  sig = op.signature()
  @tf.function
  def fn(args):
    return tf.py_function(op.flat, args, [s.dtype for s in sig])
  for i in range(2):
    op.judge(i, op.group(fn(op.tensors(i))), 'py_function')


@context('threads', 150)
def threads(op):
  """Several threads work on different arguments at the same time."""
  out, errors = {}, []
  barrier = threading.Barrier(6)
  def work(k):
    try:
      barrier.wait(30)
      for _ in range(2):
        out[k] = op.body(*op.tensors(k % 3))
    except Exception as e:  # pylint: disable=broad-except
      errors.append(e)
  ts = [threading.Thread(target=work, args=(k,)) for k in range(6)]
  for t in ts:
    t.start()
  for t in ts:
    t.join()
  if errors:
    raise errors[0]
  for k in range(6):
    op.judge(k % 3, out[k], 'a thread')


# ---------------------------------------------------------------- derivatives


# Operations without factorizations, whose derivatives may be infinite.
SMOOTH = ('full', 'neg', 'scale', 'norm2-diff', 'expand', 'transpose', 'gram',
          'index', 'gather', 'add', 'sub', 'mul', 'flat_inner', 'concat',
          'pairwise', 'matmul', 'matmul-dense', 'flat_inner-sparse',
          'bilinear_form', 'bilinear_form_two_mat', 'pairwise-matrix',
          'multiply_along', 'kron-determinant', 'kron-inv')
WAYS = ('inside', 'around', 'loop', 'branch', 'forward', 'jacobian',
        'recompute', 'twice')


def gen_derivative(draw):
  case = catalog.gen_case(draw, [k for k in SMOOTH if k in catalog.ENTRIES])
  for s in list(case['tt'].values()) + list(case['arr'].values()):
    if 'dtype' in s:
      s['dtype'] = 'float64'
    if 'fill' in s:
      s['fill'] = gen.pick(draw, *catalog.MILD)
  case['way'] = gen.pick(draw, *WAYS)
  return case


@CHECK.op('derivative', gen_derivative, quick=250)
def derivative(case):
  """Derivatives taken in other ways equal those of an eager tape."""
  op = Op(case)
  args = op.tensors(0)
  which = [k for k, a in enumerate(args) if a.dtype.is_floating]

  def vector(*tensors):
    out = []
    for o in catalog.flatten(op.plain(*tensors)):
      for t in (o.tt_cores if core.is_tt(o) else [o]):
        out.append(tf.reshape(t, [-1]))
    return tf.concat(out, 0)

  def scalar(*tensors):
    v = vector(*tensors)
    w = tf.cos(tf.range(tf.size(v), dtype=tf.float64) + 0.3)
    return tf.reduce_sum(w * v)

  def gradient(*tensors):
    xs = [tensors[k] for k in which]
    with tf.GradientTape() as t:
      t.watch(xs)
      y = scalar(*tensors)
    return t.gradient(y, xs, unconnected_gradients='zero')

  want = [core.to_np(g) for g in gradient(*args)]
  xs = [args[k] for k in which]
  way = case['way']
  if way == 'inside':
    got = tf.function(gradient)(*args)
  elif way == 'around':
    fn = tf.function(scalar)
    with tf.GradientTape() as t:
      t.watch(xs)
      y = fn(*args)
    got = t.gradient(y, xs, unconnected_gradients='zero')
  elif way in ('loop', 'branch'):
    @tf.function
    def fn(p, *tensors):
      if way == 'branch':
        return tf.cond(p > 0, lambda: scalar(*tensors),
                       lambda: tf.constant(0., tf.float64))
      return tf.reduce_sum(tf.map_fn(
          lambda k: tf.cast(k, tf.float64) * scalar(*tensors), tf.range(2),
          fn_output_signature=tf.float64))
    with tf.GradientTape() as t:
      t.watch(xs)
      y = fn(tf.constant(1), *args)
    got = t.gradient(y, xs, unconnected_gradients='zero')
  elif way == 'recompute':
    fn = tf.recompute_grad(scalar)
    with tf.GradientTape() as t:
      t.watch(xs)
      y = fn(*args)
    got = t.gradient(y, xs, unconnected_gradients='zero')
  elif way == 'jacobian':
    with tf.GradientTape() as t:
      t.watch(xs)
      y = vector(*args)
    w = np.cos(np.arange(len(y)) + 0.3)
    got = [np.tensordot(w, core.to_np(j), 1) for j in t.jacobian(
        y, xs, unconnected_gradients='zero')]
  else:
    # Directional derivatives, of the function or of its gradient.
    other = op.tensors(1)
    vs = [other[k] for k in which]
    dot = lambda a, b: sum(np.sum(core.to_np(x) * core.to_np(y))
                           for x, y in zip(a, b))
    if way == 'forward':
      with tf.autodiff.ForwardAccumulator(xs, vs) as acc:
        y = scalar(*args)
      got = acc.jvp(y, unconnected_gradients='zero')
      want, got = [np.array(dot(want, vs))], [got]
    else:
      # Reverse over reverse against differences of gradients.
      with tf.GradientTape() as t:
        t.watch(xs)
        g = gradient(*args)
        y = tf.add_n([tf.reduce_sum(a * b) for a, b in zip(g, vs)])
      got = t.gradient(y, xs, unconnected_gradients='zero')
      step = 1e-5
      moved = [[args[k] + s * step * vs[which.index(k)] if k in which else
                args[k] for k in range(len(args))] for s in (1, -1)]
      p, q = [gradient(*m) for m in moved]
      want = [(core.to_np(a) - core.to_np(b)) / (2 * step)
              for a, b in zip(p, q)]
  tts, arrays = op.data[0]
  scale = 1 + max(np.max(np.abs(w), initial=0) for w in want)
  scale += 1e-3 * catalog.scale_of(case, tts, arrays)
  if way == 'twice':
    scale *= 1e4
  require(len(got) == len(want), 'number of derivatives')
  for g, w in zip(got, want):
    core.close(g, w, 100 * scale, 'float64',
               'derivative of %s (%s)' % (case['f'], way))
