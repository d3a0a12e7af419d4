"""C23: compiled functions against eager execution."""
import numpy as np
import tensorflow as tf
import t3f
from harness import catalog, core, gen
from harness.core import require

CHECK = core.Check('C23', rule=(
    'A case counts if some TT-argument has at least two cores and a TT-rank '
    'above 1 (or the operation takes a dense array); distinct by JSON.'),
    nontrivial=lambda c: any(core.spec_nontrivial(s) for s in
                             core.specs_in(c)) or not c['tt'] or
    c['f'].startswith('kron'),
    assumptions=['eager execution is judged by the other properties and taken '
                 'as the truth here'])

MODES = ('static', 'ranks', 'modes', 'batch', 'all', 'mixed')
BOTH = ('add', 'sub', 'flat_inner', 'matmul', 'approximate-add_n')
UNSUPPORTED = {
    # TT-ranks have to be known to be ones.
    'kron-determinant': ('ranks', 'all'),
    'kron-slog_determinant': ('ranks', 'all'),
    'kron-inv': ('ranks', 'all'),
    'kron-cholesky': ('ranks', 'all'),
    # New cores are made of the static shape.
    'ones_like': ('modes', 'all'),
    'zeros_like': ('modes', 'all'),
    # The message says the shape has to be known.
    'pairwise-matrix': ('modes', 'all'),
    # Documented as slow to compile: the tree is unrolled.
    'reduce_sum_batch': ('ranks', 'modes', 'batch', 'all'),
}


# Operations with arrays, and whether the last size of an array may be unknown.
ARRAYS = {'to_tt_tensor': True, 'to_tt_matrix': True, 'matmul-dense': True,
          'multiply_along': True, 'project_sum': False,
          'gather': False, 'flat_inner-sparse': False}


def unknown_shape(name, array, hide):
  """Bits of `hide` tell which sizes are not known."""
  res = [None if (hide >> k) & 1 else s for k, s in enumerate(array.shape)]
  if not ARRAYS[name] and array.ndim > 1:
    res[-1] = array.shape[-1]
  return res


def unsupported(case, mode):
  if mode == 'mixed':
    return unsupported(case, 'all')
  if mode in UNSUPPORTED.get(case['f'], ()):
    return True
  # "If both batch sizes are not available on the compilation stage, we cannot
  # say if broadcasting is possible so we will not allow it."
  if case['f'] in BOTH and mode in ('batch', 'all'):
    return sum(s['bs'] is not None for s in case['tt'].values()) > 1
  # "The batch sizes were unknown on compilation stage, so assumed elementwise
  # multiplication (i.e. no broadcasting)."
  if case['f'] == 'mul' and mode in ('batch', 'all'):
    return len({s['bs'] for s in case['tt'].values()} - {None}) > 1
  return False


def signature(cores, bs, mode, hide=0):
  off = 0 if bs is None else 1
  res = []
  rng = np.random.RandomState(hide)
  for k, c in enumerate(cores):
    s = list(c.shape)
    if mode == 'mixed':
      # Neighbours may know different things about the rank they share.
      s = [None if rng.randint(2) else v for v in s]
    if off and mode in ('batch', 'all'):
      s[0] = None
    if mode in ('ranks', 'all'):
      if k > 0:
        s[off] = None
      if k < len(cores) - 1:
        s[-1] = None
    if mode in ('modes', 'all'):
      s[off + 1:-1] = [None] * (len(s) - off - 2)
    res.append(tf.TensorSpec(s, c.dtype))
  return res


class Traced(object):
  """A catalog operation as a function of cores and arrays."""

  def __init__(self, case, tts, arrays, mode, retrace=False, autograph=True,
               unknown=None):
    self.case = case
    hide = case.get('hide', 0)
    self.keys = sorted(tts)
    self.arr_keys = sorted(arrays)
    self.lens = [len(tts[k].cores) for k in self.keys]
    self.batch = [tts[k].bs is not None for k in self.keys]
    self.info = {}
    sig = [s for i, k in enumerate(self.keys)
           for s in signature(tts[k].cores, tts[k].bs, mode, hide + i)]
    sig += [tf.TensorSpec(arrays[k].shape if unknown is None else
                          unknown_shape(case['f'], arrays[k], unknown),
                          arrays[k].dtype) for k in self.arr_keys]
    self.fn = tf.function(self._trace, autograph=autograph,
                          input_signature=None if retrace else sig)

  def objects(self, tensors):
    """TT-objects and arrays made of a list of tensors."""
    tensors = list(tensors)
    objs, pos = {}, 0
    for k, n, b in zip(self.keys, self.lens, self.batch):
      cls = t3f.TensorTrainBatch if b else t3f.TensorTrain
      objs[k] = cls(tensors[pos:pos + n])
      pos += n
    return objs, dict(zip(self.arr_keys, tensors[pos:]))

  def _trace(self, *tensors):
    results = catalog.flatten(catalog.call(self.case, *self.objects(tensors)))
    info, out = [], []
    for r in results:
      if core.is_tt(r):
        info.append(dict(
            batch=isinstance(r, t3f.TensorTrainBatch),
            ranks=core.as_int_list(r.get_tt_ranks()),
            raw=[core.as_int_list(s) for s in r.get_raw_shape()],
            shape=core.as_int_list(r.get_shape()),
            bs=getattr(r, 'batch_size', None), dtype=r.dtype, text=str(r)))
        out.append(list(r.tt_cores) +
                   [t3f.shape(r), t3f.tt_ranks(r), t3f.raw_shape(r)])
      else:
        t = tf.convert_to_tensor(r)
        info.append(dict(static=t.shape))
        out.append([t])
    # Keep information of the right trace.
    self.info = info
    return out

  def __call__(self, tts, arrays):
    args = [tf.constant(c) for k in self.keys for c in tts[k].cores]
    args += [tf.constant(arrays[k]) for k in self.arr_keys]
    return self.fn(*args)


def agree(static, actual, what):
  """Statically known numbers are true."""
  require(len(static) == len(actual), '%s: %s, actual %s', what, static, actual)
  for s, a in zip(static, actual):
    require(s is None or s == a, '%s: %s, actual %s', what, static, actual)


def judge(case, tts, arrays, out, info, what, static_known):
  eager = catalog.flatten(catalog.call(
      case, {k: x.tt for k, x in tts.items()}, arrays))
  scale = catalog.scale_of(case, tts, arrays)
  dtype = 'float64' if all(x.dtype == 'float64' for x in tts.values()) and \
      all(a.dtype != np.float32 for a in arrays.values()) and \
      case['p'].get('to') != 'float32' else 'float32'
  require(len(out) == len(eager), '%s: %d results instead of %d', what,
          len(out), len(eager))
  for r, o, i in zip(eager, out, info):
    if not core.is_tt(r):
      r = core.to_np(r)
      got = core.to_np(o[0])
      require('batch' not in i, '%s: a TT-object instead of a tensor', what)
      require(r.dtype == got.dtype or r.dtype.kind == 'i' == got.dtype.kind,
              '%s: dtype %s instead of %s', what, got.dtype, r.dtype)
      require(i['static'].is_compatible_with(got.shape), '%s: static shape %s, '
              'actual %s', what, i['static'], got.shape)
      if case['f'].startswith('kron'):
        scale = np.maximum(scale, 10 * np.max(np.abs(r)))
      core.close(got, r, scale + np.max(np.abs(r), initial=0), dtype, what)
      continue
    require('batch' in i, '%s: a tensor instead of a TT-object', what)
    batch = isinstance(r, t3f.TensorTrainBatch)
    require(i['batch'] == batch, '%s: batch is %s', what, i['batch'])
    shape, ranks, raw = [core.to_np(t).tolist() for t in o[-3:]]
    obj = core.make_tt([core.to_np(c) for c in o[:-3]], batch)
    q = core.check_queries(obj, what)
    want = core.check_queries(r, what + ' (eager)')
    for k in ('n', 'm', 'bs', 'dtype', 'matrix', 'shape'):
      require(q[k] == want[k], '%s: %s is %s, eager has %s', what, k, q[k],
              want[k])
    require(shape == q['shape'], '%s: t3f.shape is %s, actual %s', what, shape,
            q['shape'])
    require(ranks == q['ranks'], '%s: t3f.tt_ranks is %s, actual %s', what,
            ranks, q['ranks'])
    require(raw == [q['n']] + ([q['m']] if q['matrix'] else []),
            '%s: t3f.raw_shape is %s', what, raw)
    agree(i['shape'], q['shape'], what + ': static shape')
    agree(i['ranks'], q['ranks'], what + ': static ranks')
    agree(i['raw'][0], q['n'], what + ': static raw shape')
    if batch:
      require(i['bs'] is None or int(i['bs']) == q['bs'], '%s: static batch '
              'size %s', what, i['bs'])
    require(q['ranks'] == want['ranks'], '%s: ranks %s, eager has %s', what,
            q['ranks'], want['ranks'])
    require(i['dtype'] == r.dtype, '%s: dtype', what)
    if static_known:
      require(None not in i['shape'] and None not in i['raw'][0],
              '%s: shape %s is not known statically', what, i['shape'])
    dense = lambda x: core.contract(core.result_cores(x), q['matrix'], batch)
    core.close(dense(obj), dense(r), scale, dtype, what)


def gen_static(draw):
  case = catalog.gen_case(draw)
  case['autograph'] = gen.flag(draw)
  return case


@CHECK.op('static', gen_static, quick=170)
def static(case):
  """All shapes are known; new values don't need new traces."""
  tts, arrays = catalog.arguments(case)
  fn = Traced(case, tts, arrays, 'static', autograph=case['autograph'])
  judge(case, tts, arrays, fn(tts, arrays), fn.info, case['f'], True)
  other = reseeded(case)
  tts, arrays = catalog.arguments(other)
  judge(other, tts, arrays, fn(tts, arrays), fn.info, case['f'] +
        ', other values', True)


def reseeded(case):
  return dict(case, tt={k: dict(s, seed=s['seed'] + 1)
                        for k, s in case['tt'].items()},
              arr={k: dict(s, seed=s['seed'] + 1)
                   for k, s in case['arr'].items()})


def gen_dynamic(draw):
  case = catalog.gen_case(draw, [k for k in sorted(catalog.ENTRIES)
                                 if not catalog.ENTRIES[k].static_only])
  batch = any(s['bs'] is not None for s in case['tt'].values())
  case['mode'] = gen.pick(draw, *(MODES[1:] if batch else
                                  ('ranks', 'modes', 'all', 'mixed')))
  case['hide'] = gen.integer(draw, 0, 10 ** 6)
  case['autograph'] = gen.pick(draw, True, True, False)
  return case


def gen_arrays(draw):
  names = [k for k in sorted(catalog.ENTRIES) if k in ARRAYS]
  case = catalog.gen_case(draw, names)
  return dict(case, mode=gen.pick(draw, 'static', 'ranks', 'modes', 'all',
                                  'mixed'), autograph=gen.flag(draw),
              hide=gen.integer(draw, 0, 10 ** 6),
              unknown=gen.pick(draw, 255, gen.integer(draw, 0, 255)))


@CHECK.op('arrays', gen_arrays, quick=200)
def arrays_(case):
  """Shapes of arrays are only known when the graph runs."""
  mode = case['mode']
  tts, arrays = catalog.arguments(case)
  fn = Traced(case, tts, arrays, mode, autograph=case['autograph'],
              unknown=case['unknown'])
  judge(case, tts, arrays, fn(tts, arrays), fn.info,
        '%s with unknown %s and arrays' % (case['f'], mode), False)


@CHECK.op('dynamic', gen_dynamic, quick=260)
def dynamic(case):
  """Some sizes are only known when the graph runs."""
  mode = case['mode']
  tts, arrays = catalog.arguments(case)
  if case['f'] == 'squeeze' and mode in ('batch', 'all', 'mixed'):
    raise core.Skip('documented to need the size at the compilation stage')
  fn = Traced(case, tts, arrays, mode, autograph=case['autograph'])
  try:
    out = fn(tts, arrays)
  except Exception as e:  # pylint: disable=broad-except
    if unsupported(case, mode):
      raise core.Skip('unsupported')
    raise
  what = '%s with unknown %s' % (case['f'], mode)
  judge(case, tts, arrays, out, fn.info, what, False)
  if case['arr'] or mode in ('static', 'mixed'):
    return
  # The same graph for other sizes.
  other = resized(case, mode)
  tts, arrays = catalog.arguments(other)
  judge(other, tts, arrays, fn(tts, arrays), fn.info,
        what + ', other sizes', False)


def resized(case, mode):
  """A case of other sizes which fits into the relaxed signature."""
  grow = lambda x: x + 1 if x > 1 else x
  res = reseeded(case)
  for k, s in res['tt'].items():
    if mode in ('modes', 'all'):
      s['n'] = [grow(x) for x in s['n']]
      s['m'] = None if s['m'] is None else [grow(x) for x in s['m']]
    if mode in ('ranks', 'all') and not case['f'].startswith('kron'):
      s['r'] = [1] + [x + 1 for x in s['r'][1:-1]] + [1]
    if mode in ('batch', 'all') and s['bs'] is not None:
      s['bs'] = grow(s['bs'])
  return res


def gen_retrace(draw):
  case = catalog.gen_case(draw, [k for k in sorted(catalog.ENTRIES)
                                 if not catalog.ENTRIES[k].static_only])
  case['mode'] = gen.pick(draw, 'ranks', 'modes', 'batch', 'all')
  return case


@CHECK.op('retrace', gen_retrace, quick=60)
def retrace(case):
  """One function is traced for two sets of shapes and used for both."""
  if case['arr']:
    raise core.Skip('arrays are not resized')
  tts, arrays = catalog.arguments(case)
  other = resized(case, case['mode'])
  tts2, arrays2 = catalog.arguments(other)
  fn = Traced(case, tts, arrays, 'static', retrace=True)
  judge(case, tts, arrays, fn(tts, arrays), fn.info, case['f'], True)
  judge(other, tts2, arrays2, fn(tts2, arrays2), fn.info,
        case['f'] + ' retraced', True)
  info = fn.info
  again = reseeded(case)
  tts, arrays = catalog.arguments(again)
  out = fn(tts, arrays)
  if fn.info is info:
    # No new trace; the structure is judged without static information.
    fn.info = [dict(i) for i in info]
    for i in fn.info:
      if 'batch' in i:
        i.update(ranks=[None] * len(i['ranks']), shape=[None] * len(i['shape']),
                 raw=[[None] * len(r) for r in i['raw']], bs=None)
      else:
        i['static'] = tf.TensorShape(None)
  judge(again, tts, arrays, out, fn.info, case['f'] + ' after retracing',
        False)


# ------------------------------------------------------------ composed graphs


STEPS = ('add', 'sub', 'mul', 'scale', 'neg', 'round', 'orthogonalize',
         'renormalize', 'cast', 'project', 'expand')


def gen_chain(draw):
  x = gen.tt(draw, maxr=2, size=60, fills=('normal', 'pos'), maxd=4,
             dt='float64')
  y = gen.like(draw, x, bs='no', maxr=2, fills=('normal', 'pos'))
  batch = x['bs'] is not None
  steps = [gen.pick(draw, *STEPS) for _ in range(gen.integer(draw, 2, 4))]
  return dict(tt=dict(x=x, y=y), steps=steps, f='chain', arr={}, p={},
              mode=gen.pick(draw, *(MODES if batch else
                                    ('static', 'ranks', 'modes', 'all',
                                     'mixed'))),
              hide=gen.integer(draw, 0, 10 ** 6),
              end=gen.pick(draw, 'tt', 'full', 'norm', 'inner'))


def run_chain(case, x, y):
  rounded = 0
  for s in case['steps']:
    if s == 'add':
      x = x + y
    elif s == 'sub':
      x = y - x
    elif s == 'mul':
      x = t3f.round(x * y)
    elif s == 'scale':
      x = x * 0.5
    elif s == 'neg':
      x = -x
    elif s == 'round':
      x = t3f.round(x)
    elif s == 'orthogonalize':
      x = t3f.orthogonalize_tt_cores(x)
    elif s == 'renormalize':
      x = t3f.renormalize_tt_cores(x)
    elif s == 'cast':
      x = t3f.cast(t3f.cast(x, tf.float64), tf.float64)
    elif s == 'project':
      x = t3f.project(x, y)
    else:
      x = t3f.expand_batch_dim(x)
  if case['end'] == 'full':
    return t3f.full(x)
  if case['end'] == 'norm':
    return t3f.frobenius_norm_squared(x)
  if case['end'] == 'inner':
    return t3f.flat_inner(x, y)
  return x




class Chain(Traced):

  def _trace(self, *tensors):
    n = self.lens[0]
    cls = t3f.TensorTrainBatch if self.batch[0] else t3f.TensorTrain
    x = cls(tensors[:n])
    y = t3f.TensorTrain(tensors[n:])
    r = run_chain(self.case, x, y)
    self.kind = type(r).__name__ if core.is_tt(r) else 'tensor'
    return list(r.tt_cores) if core.is_tt(r) else r


@CHECK.op('chain', gen_chain, quick=90)
def chain(case):
  """Several operations in one graph, so that intermediate objects have
  unknown sizes too."""
  cases = [case]
  if case['mode'] not in ('static', 'mixed'):
    cases.append(resized(case, case['mode']))
  fn = None
  for c in cases:
    tts, arrays = catalog.arguments(c)
    if fn is None:
      fn = Chain(c, tts, arrays, case['mode'])
    out = fn(tts, arrays)
    want = run_chain(c, tts['x'].tt, tts['y'].tt)
    what = 'chain with unknown ' + case['mode']
    q = 10.0
    qx, qy = max(1, np.max(tts['x'].q)), max(1, np.max(tts['y'].q))
    q = qx * qy
    for s in c['steps']:
      q = q * qy if s == 'mul' else q + qy
    q = q ** 2 if c['end'] == 'norm' else q * qy
    if core.is_tt(want):
      require(fn.kind == type(want).__name__, '%s: kind %s', what, fn.kind)
      batch = isinstance(want, t3f.TensorTrainBatch)
      matrix = tts['x'].matrix
      core.close(core.contract([core.to_np(t) for t in out], matrix, batch),
                 core.contract(core.result_cores(want), matrix, batch), q,
                 'float64', what)
    else:
      require(fn.kind == 'tensor', '%s: kind %s', what, fn.kind)
      core.close(core.to_np(out), core.to_np(want), q, 'float64', what)
