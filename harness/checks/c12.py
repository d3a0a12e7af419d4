"""C12: indexing and gathering."""
import numpy as np
import tensorflow as tf
import t3f
from harness import core, gen
from harness.core import Arg, require

CHECK = core.Check('C12')


def gen_slice(draw, size):
  kind = gen.pick(draw, 'full', 'full', 'range', 'any')
  if kind == 'full':
    return dict(s=[None, None, None])
  if kind == 'range':
    a = gen.integer(draw, 0, size - 1)
    b = gen.integer(draw, a + 1, size)
    return dict(s=[a, b, None])
  lo = [None] + list(range(-size - 1, size + 2))
  return dict(s=[gen.pick(draw, *lo), gen.pick(draw, *lo),
                 gen.pick(draw, None, 1, 2, 3, -1, -2)])


def gen_int(draw, size):
  return dict(i=gen.integer(draw, -size, size - 1),
              t=gen.pick(draw, 'int', 'int', 'np64', 'np32', 'tf'))


def to_index(x, plain=False):
  if 's' in x:
    return slice(*x['s'])
  if plain:
    return x['i']
  return {'int': int, 'np64': np.int64, 'np32': np.int32,
          'tf': lambda v: tf.constant(v)}[x['t']](x['i'])


def gen_index(draw, batch):
  x = gen.tt(draw, 'tensor', bs='yes' if batch else 'no', size=1200)
  idx = []
  for s in x['n']:
    idx.append(gen_int(draw, s) if gen.flag(draw) else gen_slice(draw, s))
  if all('i' in i for i in idx):
    k = gen.integer(draw, 0, len(idx) - 1)
    idx[k] = gen_slice(draw, x['n'][k])
  case = dict(x=x, idx=idx)
  if batch:
    case['b'] = (gen_int(draw, x['bs']) if gen.flag(draw) else
                 gen_slice(draw, x['bs']))
    case['how'] = gen.pick(draw, 'full', 'full', 'full', 'batch', 'tuple1')
  return case


def model(x, index, axes_n, bs):
  d, a = x.d[index], x.a[index]
  return core.Ref(d, a, axes_n, None, bs, x.dtype)


def sizes(shape, idx):
  return [len(range(s)[slice(*i['s'])]) for s, i in zip(shape, idx) if 's' in i]


@CHECK.op('single', lambda draw: gen_index(draw, False), quick=1200)
def single(case):
  x = Arg(case['x'])
  idx = case['idx']
  res = x.tt[tuple(to_index(i) for i in idx)]
  ref = model(x, tuple(to_index(i, True) for i in idx), sizes(x.n, idx), None)
  check(res, ref)


@CHECK.op('batch', lambda draw: gen_index(draw, True), quick=1200)
def batch(case):
  x = Arg(case['x'])
  idx, b = case['idx'], case['b']
  how = case['how']
  if how != 'full':
    arg = to_index(b)
    res = x.tt[(arg,)] if how == 'tuple1' else x.tt[arg]
    index = (to_index(b, True),)
    n = x.n
  else:
    res = x.tt[tuple([to_index(b)] + [to_index(i) for i in idx])]
    index = tuple([to_index(b, True)] + [to_index(i, True) for i in idx])
    n = sizes(x.n, idx)
  bs = len(range(x.bs)[slice(*b['s'])]) if 's' in b else None
  check(res, model(x, index, n, bs))


def check(res, ref):
  if ref.d.size == 0:
    core.check_structure(res, False, ref.n, None, ref.bs, ref.dtype)
    return
  core.expect_tt(res, ref)


@CHECK.op('matrix-batch', lambda draw: (lambda x: dict(
    x=x, b=gen_int(draw, x['bs']) if gen.flag(draw) else
    gen_slice(draw, x['bs'])))(gen.tt(draw, 'matrix', bs='yes', size=600)),
          quick=500)
def matrix_batch(case):
  x, b = Arg(case['x']), case['b']
  res = x.tt[to_index(b)]
  index = to_index(b, True)
  bs = len(range(x.bs)[slice(*b['s'])]) if 's' in b else None
  ref = core.Ref(x.d[index], x.a[index], x.n, x.m, bs, x.dtype)
  if ref.d.size == 0:
    core.check_structure(res, True, x.n, x.m, bs, x.dtype)
  else:
    core.expect_tt(res, ref, max_r=x.r)


def gen_gather(draw):
  x = gen.tt(draw, 'tensor', size=1500)
  return dict(x=x, shape=gen.pick(draw, [1], [2], [5], [17], [2, 3], [1, 1],
                                  [2, 1, 2], [0]),
              feed=gen.pick(draw, 'array', 'tensor32', 'tensor64', 'list'),
              style=gen.pick(draw, 'any', 'any', 'last', 'same'))


@CHECK.op('gather', gen_gather, quick=1200)
def gather(case):
  x = Arg(case['x'])
  rng = np.random.RandomState(case['seed'] % 2 ** 32)
  shape = x.d.shape
  idx = np.stack([rng.randint(s, size=case['shape']) for s in shape], -1)
  if case['style'] == 'last':
    idx[...] = np.array(shape) - 1
  elif case['style'] == 'same' and idx.size:
    idx[...] = idx.reshape(-1, len(shape))[0]
  feed = case['feed']
  if feed == 'list' and idx.size == 0:
    feed = 'array'
  arg = {'array': lambda: idx, 'list': lambda: idx.tolist(),
         'tensor32': lambda: tf.constant(idx, tf.int32),
         'tensor64': lambda: tf.constant(idx, tf.int64)}[feed]()
  where = tuple(np.moveaxis(idx, -1, 0))
  core.expect_dense(t3f.gather_nd(x.tt, arg), x.d[where], x.a[where], x.dtype)
