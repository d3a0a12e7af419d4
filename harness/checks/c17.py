"""C17: deterministic constructors."""
import numpy as np
import tensorflow as tf
import t3f
from harness import core, gen
from harness.core import Arg, require

CHECK = core.Check('C17', rule=(
    'A case counts if the shape has at least two axes of size above 1; '
    'distinct by JSON.'),
    nontrivial=lambda c: sum(k > 1 for k in c['x']['n'] + (c['x']['m'] or [])
                             ) > 1,
    assumptions=['values are compared exactly'])

DTYPES = ('float32', 'float64', 'float16', 'int32', 'int64', 'bfloat16')


def notation(xs, style):
  if xs is None:
    return None
  return {'tuple': tuple(xs), 'list': list(xs), 'array': np.array(xs),
          'array32': np.array(xs, dtype=np.int32)}[style]


def matrix_notation(n, m, style):
  if style == 'mixed':
    return (list(n) if n is not None else None,
            np.array(m) if m is not None else None)
  a, b = notation(n, style), notation(m, style)
  if style.startswith('array') and n is not None and m is not None:
    return np.array([a, b])
  return (a, b) if style == 'tuple' else [a, b]


STYLES = ('tuple', 'list', 'array', 'array32')


def gen_named(draw):
  kind = gen.pick(draw, 'tensor', 'matrix', 'eye')
  x = gen.tt(draw, 'matrix' if kind == 'matrix' else 'tensor', bs='no',
             size=1000 if kind != 'eye' else 30)
  omit = None
  if kind == 'matrix':
    omit = gen.pick(draw, None, None, 'rows', 'cols')
  return dict(kind=kind, x=x, omit=omit, f=gen.pick(draw, 'ones', 'zeros'),
              dt=gen.pick(draw, 'default', *DTYPES),
              style=gen.pick(draw, *(STYLES + (('mixed',) if kind == 'matrix'
                                               else ()))))


def exact(obj, want, matrix, n, m, dtype, what):
  cores, ranks = core.check_structure_any(obj, matrix, n, m, None, dtype, what)
  require(ranks == [1] * (len(n) + 1), '%s: ranks %s', what, ranks)
  got = core.contract([np.asarray(c, np.float64) for c in cores], matrix, False)
  require(np.array_equal(got, want.reshape(got.shape)),
          '%s: wrong values, e.g. %s', what, got.reshape(-1)[:5])
  if tf.as_dtype(dtype).is_floating and dtype != 'bfloat16':
    full = core.to_np(t3f.full(obj))
    require(full.shape == want.shape and np.array_equal(full, want),
            '%s: wrong dense form', what)


@CHECK.op('named', gen_named, quick=1500)
def named(case):
  n, m, kind = case['x']['n'], case['x']['m'], case['kind']
  dt = case['dt']
  kw = {} if dt == 'default' else {'dtype': tf.as_dtype(dt)}
  dt = 'float32' if dt == 'default' else dt
  value = 1.0 if case['f'] == 'ones' else 0.0
  if kind == 'tensor':
    fn = t3f.tensor_ones if value else t3f.tensor_zeros
    obj = fn(notation(n, case['style']), **kw)
    exact(obj, np.full(n, value), False, n, None, dt, fn.__name__)
  elif kind == 'eye':
    obj = t3f.eye(notation(n, case['style']), **kw)
    exact(obj, np.eye(core.prod(n)), True, n, n, dt, 'eye')
  else:
    fn = t3f.matrix_ones if value else t3f.matrix_zeros
    a, b = n, m
    if case['omit'] == 'rows':
      a, n = None, [1] * len(m)
    elif case['omit'] == 'cols':
      b, m = None, [1] * len(n)
    obj = fn(matrix_notation(a, b, case['style']), **kw)
    want = np.full((core.prod(n), core.prod(m)), value)
    exact(obj, want, True, n, m, dt, fn.__name__)


def gen_like(draw):
  return dict(x=gen.tt(draw), f=gen.pick(draw, 'ones', 'zeros'),
              kind=gen.pick(draw, 'plain', 'plain', 'variable', 'result'))


@CHECK.op('like', gen_like, quick=800)
def like(case):
  x = Arg(case['x'])
  tt = x.tt
  if case['kind'] == 'variable':
    cores = [tf.Variable(c) for c in x.cores]
    cls = t3f.TensorTrain if x.bs is None else t3f.TensorTrainBatch
    tt = cls(cores, convert_to_tensors=False)
  elif case['kind'] == 'result':
    tt = t3f.round(tt * 2.0, max_tt_rank=2)
  fn = t3f.ones_like if case['f'] == 'ones' else t3f.zeros_like
  value = 1.0 if case['f'] == 'ones' else 0.0
  exact(fn(tt), np.full(x.ref.item_shape, value), x.matrix, x.n, x.m, x.dtype,
        fn.__name__)


def gen_not_tt(draw):
  return dict(x=gen.tt(draw, bs='no', size=100),
              kind=gen.pick(draw, 'array', 'tensor', 'list', 'cores'))


@CHECK.op('like-rejects', gen_not_tt, quick=40)
def like_rejects(case):
  x = Arg(case['x'])
  arg = {'array': x.d, 'tensor': tf.constant(x.d), 'list': list(x.n),
         'cores': x.cores}[case['kind']]
  for fn in (t3f.ones_like, t3f.zeros_like):
    core.must_raise(lambda: fn(arg), ValueError, fn.__name__)
