"""C04: dense to TT."""
import numpy as np
import tensorflow as tf
import t3f
from harness import core, gen
from harness.core import require

CHECK = core.Check('C04', rule=(
    'A case counts if the tensor has at least two non-trivial modes and is '
    'not zero; distinct by JSON.'),
    nontrivial=lambda c: c['value']['kind'] != 'zero' and
    sum(a * b > 1 for a, b in zip(c['n'], c['m'] or [1] * len(c['n']))) > 1,
    assumptions=['NumPy SVD of the unfoldings in float64 is taken as the truth',
                 'error bound: sum of tail energies plus round-off '
                 '1e-10/3e-5 of the norm'])


def dense_value(v, n, m, dtype):
  """A dense tensor of the shape n (times m, interleaved factorization)."""
  rng = np.random.RandomState(v['seed'] % 2 ** 32)
  if m is None:
    shape, final = list(n), list(n)
  else:
    shape, final = [a * b for a, b in zip(n, m)], [core.prod(n), core.prod(m)]
  kind = v['kind']
  if kind == 'lowrank':
    r = [1] + [v['rank']] * (len(shape) - 1) + [1]
    cores = [rng.randn(r[i], shape[i], r[i + 1]) for i in range(len(shape))]
    x = core.contract(cores, False, False)
  elif kind == 'zero':
    x = np.zeros(shape)
  elif kind == 'ones':
    x = np.ones(shape)
  elif kind == 'int':
    x = rng.randint(-2, 3, size=shape).astype(float)
  elif kind == 'scaled':
    x = rng.randn(*shape) * 10.0 ** rng.randint(-6, 7)
  elif kind == 'decay':
    x = rng.randn(*shape)
    for ax in range(len(shape)):
      w = 4.0 ** (-np.arange(shape[ax]))
      x = x * w.reshape([-1] + [1] * (len(shape) - 1 - ax))
  elif kind == 'delta':
    x = np.zeros(shape)
    x[tuple(rng.randint(s) for s in shape)] = 3.0
  else:
    x = rng.randn(*shape)
  x = np.asarray(x, dtype=dtype).astype(np.float64)
  interleaved = x
  if m is not None:
    d = len(n)
    y = x.reshape([s for p in zip(n, m) for s in p])
    y = y.transpose(list(range(0, 2 * d, 2)) + list(range(1, 2 * d, 2)))
    x = y.reshape(final)
  return x, interleaved


def tails(x, caps):
  """Sum over cuts of energies of singular values beyond the caps."""
  d = x.ndim
  res = 0.0
  for k in range(1, d):
    s = np.linalg.svd(x.reshape(core.prod(x.shape[:k]), -1), compute_uv=False)
    res += float((s[caps[k]:] ** 2).sum())
  return res


def gen_value(draw):
  return dict(kind=gen.pick(draw, 'normal', 'lowrank', 'lowrank', 'decay',
                            'int', 'scaled', 'delta', 'ones', 'zero'),
              rank=gen.integer(draw, 1, 3), seed=gen.seed(draw))


def gen_cap(draw, d, hi=7):
  kind = gen.pick(draw, 'number', 'number', 'list', 'list', 'inf', 'big',
                  'default', 'listinf')
  if kind == 'number':
    return gen.integer(draw, 1, hi)
  if kind == 'list':
    return [1] + [gen.integer(draw, 1, hi) for _ in range(d - 1)] + [1]
  if kind == 'listinf':
    return [1] + [gen.pick(draw, 1, 2, 3, 'inf')
                  for _ in range(d - 1)] + [1]
  return kind


def cap_arg(cap, style, default=None):
  """(argument or None if to be omitted, list of caps function)."""
  big = 10 ** 6
  if cap == 'default':
    return None
  if cap == 'inf':
    return np.inf
  if cap == 'big':
    return big
  if isinstance(cap, list):
    xs = [np.inf if c == 'inf' else c for c in cap]
    if style == 'array':
      return np.array(xs)
    return tuple(xs) if style == 'tuple' else xs
  return np.int64(cap) if style == 'array' else cap


def caps_list(cap, d, default):
  big = 10 ** 6
  if cap == 'default':
    cap = default
  if cap in ('inf', 'big'):
    cap = big
  if isinstance(cap, list):
    return [big if c == 'inf' else c for c in cap]
  return [1] + [cap] * (d - 1) + [1]


def judge(res, x, inter, case, caps):
  n, m, dt = case['n'], case['m'], case['dtype']
  d = len(n)
  shape = [a * b for a, b in zip(n, m or [1] * d)]
  # TT-ranks never exceed the caps nor the sizes of the unfoldings.
  lim = [min(caps[k], core.prod(shape[:k]), core.prod(shape[k:]))
         for k in range(d + 1)]
  cores, _ = core.check_structure(res, m is not None, n, m, None, dt,
                                  max_r=lim)
  got = core.contract(cores, m is not None, False)
  require(got.shape == x.shape, 'shape')
  norm = np.linalg.norm(x)
  err = np.linalg.norm(got - x)
  require(np.isfinite(err), 'not finite')
  bound = np.sqrt(tails(inter, caps)) * (1 + 1e-6)
  tol = core.TOL[dt] * norm * (1 + d)
  require(err <= bound + tol, 'error %.4g exceeds the bound %.4g (norm %.4g)',
          err, bound + tol, norm)


def gen_tensor(draw):
  n = gen.modes(draw, 600)
  return dict(n=n, m=None, value=gen_value(draw), dtype=gen.dtype(draw),
              cap=gen_cap(draw, len(n)), style=gen.pick(draw, 'plain', 'array',
                                                        'tuple'),
              feed=gen.pick(draw, 'tensor', 'array', 'variable'),
              eps=gen.pick(draw, None, None, 0.0, 0.01, 0.3))


def feed(x, case):
  x = x.astype(case['dtype'])
  return {'tensor': tf.constant, 'array': lambda y: y,
          'variable': tf.Variable}[case['feed']](x)


def kwargs(case):
  kw = {}
  cap = cap_arg(case['cap'], case['style'])
  if cap is not None:
    kw['max_tt_rank'] = cap
  if case['eps'] is not None:
    kw['epsilon'] = case['eps']
  return kw


def eps_bound(res, x, inter, case, caps):
  """A loose epsilon may cut ranks: only the documented error is promised."""
  n, m, dt = case['n'], case['m'], case['dtype']
  cores, _ = core.check_structure(res, m is not None, n, m, None, dt,
                                  max_r=caps)
  got = core.contract(cores, m is not None, False)
  err, norm = np.linalg.norm(got - x), np.linalg.norm(x)
  bound = np.sqrt(tails(inter, caps)) + case['eps'] * norm
  require(err <= bound * (1 + 1e-6) + core.TOL[dt] * norm * (1 + len(n)),
          'error %.4g exceeds %.4g with epsilon', err, bound)


@CHECK.op('tensor', gen_tensor, quick=1000)
def tensor(case):
  x, inter = dense_value(case['value'], case['n'], None, case['dtype'])
  caps = caps_list(case['cap'], len(case['n']), 10)
  res = t3f.to_tt_tensor(feed(x, case), **kwargs(case))
  (eps_bound if case['eps'] else judge)(res, x, inter, case, caps)


def gen_matrix(draw):
  n, m = gen.matrix_modes(draw, 600)
  case = gen_tensor(draw)
  case.update(n=n, m=m, cap=gen_cap(draw, len(n), 9),
              shape=gen.pick(draw, 'lists', 'array', 'tuples'))
  vec = gen.pick(draw, '', '', '', 'col', 'row', 'col-none', 'row-none')
  if vec.startswith('col'):
    case['m'] = [1] * len(n)
  if vec.startswith('row'):
    case['n'] = [1] * len(n)
  case['vec'] = vec
  return case


@CHECK.op('matrix', gen_matrix, quick=1000)
def matrix(case):
  n, m = case['n'], case['m']
  x, inter = dense_value(case['value'], n, m, case['dtype'])
  caps = caps_list(case['cap'], len(n), 10)
  shape = {'lists': [list(n), list(m)], 'array': np.array([n, m]),
           'tuples': (tuple(n), tuple(m))}[case['shape']]
  if case['vec'] == 'col-none':
    shape = (n, None)
  if case['vec'] == 'row-none':
    shape = (None, m)
  res = t3f.to_tt_matrix(feed(x, case), shape, **kwargs(case))
  (eps_bound if case['eps'] else judge)(res, x, inter, case, caps)
