"""C02: reported metadata describes the cores."""
import numpy as np
import tensorflow as tf
import t3f
from harness import core, gen
from harness.core import Arg, require

CHECK = core.Check('C02')


def shape_notation(n, m, style):
  if style == 'none':
    return None
  if m is None:
    return {'tuple': tuple(n), 'list': list(n), 'array': np.array(n),
            'shape': tf.TensorShape(n), 'shapes': (tf.TensorShape(n),),
            'nested': (tuple(n),)}[style]
  return {'tuple': (tuple(n), tuple(m)), 'list': [list(n), list(m)],
          'array': np.array([n, m]),
          'shape': (tf.TensorShape(n), tf.TensorShape(m)),
          'shapes': (tf.TensorShape(n), tf.TensorShape(m)),
          'nested': (list(n), list(m))}[style]


def ranks_notation(r, style):
  return {'none': None, 'list': list(r), 'tuple': tuple(r),
          'array': np.array(r), 'shape': tf.TensorShape(r)}[style]


def cores_notation(cores, style):
  if style == 'array':
    return list(cores)
  if style == 'tuple':
    return tuple(tf.constant(c) for c in cores)
  if style == 'variable':
    return [tf.Variable(c) for c in cores]
  return [tf.constant(c) for c in cores]


SHAPES = ('none', 'tuple', 'list', 'array', 'shape', 'shapes', 'nested')
RANKS = ('none', 'list', 'tuple', 'array', 'shape')
CORES = ('tensor', 'array', 'tuple', 'variable')


def gen_construct(draw):
  return dict(x=gen.tt(draw), shape=gen.pick(draw, *SHAPES),
              ranks=gen.pick(draw, *RANKS), cores=gen.pick(draw, *CORES),
              size=gen.flag(draw), convert=gen.flag(draw))


def construct(case):
  s = case['x']
  cores = core.np_cores(s)
  kw = dict(shape=shape_notation(s['n'], s['m'], case['shape']),
            tt_ranks=ranks_notation(s['r'], case['ranks']))
  if case['cores'] != 'array':
    kw['convert_to_tensors'] = case['convert']
  args = cores_notation(cores, case['cores'])
  if s['bs'] is None:
    obj = t3f.TensorTrain(args, **kw)
  else:
    if case['size']:
      kw['batch_size'] = s['bs']
    obj = t3f.TensorTrainBatch(args, **kw)
  return cores, obj


@CHECK.op('construct', gen_construct, quick=1200)
def run_construct(case):
  s = case['x']
  cores, obj = construct(case)
  got = core.check_queries(obj)
  require((got['n'], got['m'], got['ranks'], got['bs'], got['dtype']) ==
          (s['n'], s['m'], s['r'], s['bs'], s['dtype']),
          'metadata %s for %s', got, s)
  for a, b in zip(core.result_cores(obj), cores):
    require(np.array_equal(a, b), 'a core was changed')
  variable = case['cores'] == 'variable' and not case['convert']
  require(bool(obj.is_variable()) == variable, 'is_variable')
  require(list(t3f.full(obj).shape) == got['shape'], 'shape of full')


def gen_derived(draw):
  x = gen.tt(draw, size=400, maxr=3)
  y = gen.like(draw, x, bs=gen.partner_batch(draw, x['bs']), maxr=3)
  names = ['add', 'sub', 'mul', 'neg', 'scale', 'round', 'round-cap', 'ortho',
           'renorm', 'cast', 'ones', 'zeros', 'expand', 'squeeze', 'to_tt']
  if x['m'] is not None:
    names += ['transpose', 'gram-mul']
  if x['bs'] is not None:
    names += ['item', 'slice', 'along', 'concat', 'sum']
  else:
    names += ['project', 'get_variable']
  if x['m'] is None:
    names += ['index']
  return dict(x=x, y=y, f=gen.pick(draw, *names), k=gen.integer(draw, 0, 100))


@CHECK.op('derived', gen_derived, quick=1500)
def derived(case):
  x, y, f, k = Arg(case['x']), Arg(case['y']), case['f'], case['k']
  bs = core.bcast([x.bs, y.bs])
  n, m, dt, ranks = x.n, x.m, x.dtype, None
  rx, ry = x.r, y.r
  d = len(n)
  b = x.bs
  same_bs = x.bs
  if f == 'add' or f == 'sub':
    res = x.tt + y.tt if f == 'add' else x.tt - y.tt
    b, ranks = bs, [1] + [p + q for p, q in zip(rx[1:-1], ry[1:-1])] + [1]
  elif f == 'mul':
    res, b = x.tt * y.tt, bs
    ranks = [p * q for p, q in zip(rx, ry)]
  elif f == 'neg':
    res, ranks = -x.tt, rx
  elif f == 'scale':
    res, ranks = 2.5 * x.tt, rx
  elif f == 'round':
    res = t3f.round(x.tt)
  elif f == 'round-cap':
    res = t3f.round(x.tt, max_tt_rank=1 + k % 3)
  elif f == 'ortho':
    res = t3f.orthogonalize_tt_cores(x.tt, left_to_right=b is not None or
                                     k % 2 == 0)
  elif f == 'renorm':
    res, ranks = t3f.renormalize_tt_cores(x.tt), rx
  elif f == 'cast':
    dt = 'float32' if dt == 'float64' else 'float64'
    res, ranks = t3f.cast(x.tt, tf.as_dtype(dt)), rx
  elif f == 'ones':
    res, ranks, b = t3f.ones_like(x.tt), [1] * (d + 1), None
  elif f == 'zeros':
    res, ranks, b = t3f.zeros_like(x.tt), [1] * (d + 1), None
  elif f == 'expand':
    res, ranks, b = t3f.expand_batch_dim(x.tt), rx, b or 1
  elif f == 'squeeze':
    res, ranks = t3f.squeeze_batch_dim(x.tt), rx
    b = None if b == 1 else b
  elif f == 'to_tt':
    value = tf.constant((x.d if b is None else x.d[0]).astype(dt))
    res = (t3f.to_tt_tensor(value, 1 + k % 4) if m is None else
           t3f.to_tt_matrix(value, (n, m), 1 + k % 4))
    b = None
  elif f == 'transpose':
    res, ranks, n, m = t3f.transpose(x.tt), rx, m, n
  elif f == 'gram-mul':
    res = t3f.matmul(t3f.transpose(x.tt), y.tt)
    b, n, m = bs, m, m
    ranks = [p * q for p, q in zip(rx, ry)]
  elif f == 'item':
    res, ranks, b = x.tt[k % b], rx, None
  elif f == 'slice':
    res, ranks, b = x.tt[:1 + k % b], rx, 1 + k % b
  elif f == 'along':
    w = np.arange(1, b + 1).astype(dt)
    res, ranks = t3f.multiply_along_batch_dim(x.tt, tf.constant(w)), rx
  elif f == 'concat':
    z = Arg(dict(case['y'], bs=1 + k % 3, r=rx))
    res, ranks, b = t3f.concat_along_batch_dim([x.tt, z.tt]), rx, b + z.bs
  elif f == 'sum':
    res, b = t3f.approximate.reduce_sum_batch(x.tt, max_tt_rank=1 + k % 4), None
  elif f == 'project':
    res = t3f.project(y.tt, x.tt)
    b = y.bs
    if not any(c == 0 for c in x.spec['r']):
      ranks = None
  elif f == 'get_variable':
    res, ranks = t3f.get_variable('v%d' % k, initializer=x.tt), rx
    require(res.is_variable(), 'is_variable of a variable')
  elif f == 'index':
    idx = [slice(None)] * d
    for i in range(d - 1):
      if (k >> i) & 1:
        idx[i] = (k + i) % n[i]
    keep = [i for i in range(d) if isinstance(idx[i], slice)]
    res = x.tt[tuple(idx)] if b is None else x.tt[tuple([slice(None)] + idx)]
    n = [n[i] for i in keep]
  got = core.check_queries(res, f)
  want = (list(n), None if m is None else list(m), b, dt)
  require((got['n'], got['m'], got['bs'], got['dtype']) == want,
          '%s: metadata %s instead of %s', f, got, want)
  if ranks is not None:
    require(got['ranks'] == list(ranks), '%s: TT-ranks %s instead of %s', f,
            got['ranks'], ranks)
  require(list(t3f.full(res).shape) == got['shape'], '%s: shape of full', f)


def gen_pair(draw):
  x = gen.tt(draw, size=60, maxr=2)
  return dict(x=x, y=gen.like(draw, x, maxr=2))


@CHECK.op('broadcastable', gen_pair, quick=300)
def broadcastable(case):
  x, y = Arg(case['x']), Arg(case['y'])
  want = (x.bs is None or y.bs is None or x.bs == y.bs or 1 in (x.bs, y.bs))
  got = t3f.is_batch_broadcasting_possible(x.tt, y.tt)
  require(bool(got) == want, 'broadcasting of %s and %s: %s', x.bs, y.bs, got)


@CHECK.op('clean-raw-shape',
          lambda draw: dict(x=gen.tt(draw), style=gen.pick(draw, *SHAPES)),
          quick=300)
def clean(case):
  s = case['x']
  got = t3f.clean_raw_shape(shape_notation(s['n'], s['m'], case['style']))
  if case['style'] == 'none':
    require(got is None, 'clean_raw_shape(None) is %s', got)
    return
  want = [s['n']] + ([] if s['m'] is None else [s['m']])
  require(isinstance(got, tuple) and all(isinstance(g, tf.TensorShape)
                                         for g in got), 'type %s', type(got))
  require([g.as_list() for g in got] == want, 'clean_raw_shape: %s', got)
