"""C18: random constructors."""
import numpy as np
import tensorflow as tf
import t3f
from harness import core, gen
from harness.core import require, must_raise
from harness.checks import c17

CHECK = core.Check('C18', rule=(
    'A case counts if the object has at least two cores and a TT-rank above 1; '
    'distinct by JSON.'),
    nontrivial=lambda c: len(c['n']) > 1 and
    (c['rank'] > 1 if isinstance(c['rank'], int) else max(c['rank']) > 1),
    assumptions=['statistics of samples are compared with 7 standard errors '
                 'of them; the random seed of TensorFlow is a part of the case'])

CORES = {'tensor': t3f.tensor_with_random_cores,
         'tensor-batch': t3f.tensor_batch_with_random_cores,
         'matrix': t3f.matrix_with_random_cores,
         'matrix-batch': t3f.matrix_batch_with_random_cores}
ENTRIES = {'tensor': t3f.random_tensor,
           'tensor-batch': t3f.random_tensor_batch,
           'matrix': t3f.random_matrix,
           'matrix-batch': t3f.random_matrix_batch}
LAYER = {'glorot': t3f.glorot_initializer, 'he': t3f.he_initializer,
         'lecun': t3f.lecun_initializer}


def gen_object(draw, wide=False):
  kind = gen.pick(draw, 'tensor', 'tensor-batch', 'matrix', 'matrix-batch')
  family = gen.pick(draw, 'cores', 'entries', 'entries')
  if kind == 'matrix':
    family = gen.pick(draw, 'cores', 'entries', 'entries', 'layer', 'layer')
  matrix = kind.startswith('matrix')
  batch = kind.endswith('batch')
  d = gen.pick(draw, 1, 2, 2, 3, 3, 4, 5)
  bs = None
  if batch:
    bs = gen.pick(draw, 1, 2, 3, 5)
  if wide and (not batch or gen.flag(draw)):
    if matrix:
      n = [gen.integer(draw, 60, 150) for _ in range(d)]
      m = [gen.integer(draw, 60, 150) for _ in range(d)]
      if gen.pick(draw, True, False, False, False):
        n, m = [10000] * d, [1] * d
    else:
      n, m = [gen.integer(draw, 8000, 15000) for _ in range(d)], None
  else:
    if wide:
      bs = gen.integer(draw, 15000, 25000)
      d = min(d, 3)
    n = [gen.integer(draw, 1, 5) for _ in range(d)]
    m = [gen.integer(draw, 1, 5) for _ in range(d)] if matrix else None
  omit = None
  if matrix:
    omit = gen.pick(draw, None, None, None, 'rows', 'cols')
    if wide and bs is None and omit:
      omit = None
  if omit == 'rows':
    n = [1] * d
  elif omit == 'cols':
    m = [1] * d
  top = gen.pick(draw, 3, 8) if wide else 5
  rank = gen.pick(draw, 'default', 'number', 'list', 'list')
  if rank == 'number':
    rank = gen.integer(draw, 1, top)
  elif rank == 'list':
    rank = [1] + [gen.integer(draw, 1, top) for _ in range(d - 1)] + [1]
  else:
    rank = 2
  case = dict(kind=kind, family=family, n=n, m=m, bs=bs, omit=omit, rank=rank,
              pass_rank=not (rank == 2 and gen.flag(draw)),
              style=gen.pick(draw, *c17.STYLES),
              rank_style=gen.pick(draw, *c17.STYLES),
              dt=gen.pick(draw, 'default', 'float32', 'float64'))
  if family == 'layer':
    case['scheme'] = gen.pick(draw, 'glorot', 'he', 'lecun')
  else:
    case['std'] = gen.pick(draw, None, 1.0, 0.5, 2.0, 10.0, 0.01, 1e-3, 300.0)
  if family == 'cores':
    case['mean'] = gen.pick(draw, None, 0.0, 1.0, -2.5, 0.3, 10.0)
  return case


def build(case):
  n, m, kind = case['n'], case['m'], case['kind']
  if m is None:
    shape = c17.notation(n, case['style'])
  else:
    shape = c17.matrix_notation(None if case['omit'] == 'rows' else n,
                                None if case['omit'] == 'cols' else m,
                                case['style'])
  kw = {}
  if case['pass_rank']:
    r = case['rank']
    kw['tt_rank'] = r if isinstance(r, int) else c17.notation(
        r, case['rank_style'])
  if case['bs'] is not None:
    kw['batch_size'] = case['bs']
  if case['dt'] != 'default':
    kw['dtype'] = tf.as_dtype(case['dt'])
  if case.get('std') is not None:
    kw['stddev'] = case['std']
  if case.get('mean') is not None:
    kw['mean'] = case['mean']
  if case['family'] == 'layer':
    return LAYER[case['scheme']](shape, **kw)
  return {'cores': CORES, 'entries': ENTRIES}[case['family']][kind](shape, **kw)


def structure(obj, case):
  dt = 'float32' if case['dt'] == 'default' else case['dt']
  cores, ranks = core.check_structure(obj, case['m'] is not None, case['n'],
                                      case['m'], case['bs'], dt)
  r = case['rank']
  if isinstance(r, int):
    r = [1] + [r] * (len(case['n']) - 1) + [1]
  require(ranks == r, 'ranks %s instead of %s', ranks, r)
  require(all(np.all(np.isfinite(c)) for c in cores), 'not finite')
  return [c.astype(np.float64) for c in cores]


@CHECK.op('structure', gen_object, quick=600)
def run_structure(case):
  structure(build(case), case)


def gen_wide(draw):
  return gen_object(draw, wide=True)


def std_of(case):
  """Requested standard deviation of entries."""
  if case['family'] == 'layer':
    rows, cols = core.prod(case['n']), core.prod(case['m'])
    return np.sqrt({'glorot': 2.0 / (rows + cols), 'he': 2.0 / rows,
                    'lecun': 1.0 / rows}[case['scheme']])
  return 1.0 if case['std'] is None else case['std']


def correlation(a, b):
  a, b = a - a.mean(), b - b.mean()
  return (a * b).mean() / np.sqrt((a * a).mean() * (b * b).mean())


@CHECK.op('distribution', gen_wide, quick=800)
def distribution(case):
  cores = structure(build(case), case)
  d = len(cores)
  bs = case['bs'] or 1
  if case['bs'] is None:
    cores = [c[None] for c in cores]
  # Flatten the modes: bs x r x N x r.
  cores = [c.reshape(bs, c.shape[1], -1, c.shape[-1]) for c in cores]
  std = std_of(case)
  if case['family'] == 'cores':
    mean = case['mean'] or 0.0
    for k, c in enumerate(cores):
      z = (c.reshape(-1) - mean) / std
      size = z.size
      require(abs(z.mean()) <= 7 / np.sqrt(size), 'core %d: mean %g instead of '
              '%g (std %g)', k, c.mean(), mean, std)
      require(abs((z ** 2).mean() - 1) <= 7 * np.sqrt(2.0 / size),
              'core %d: deviation %g instead of %g', k, c.std(), std)
      inside = (np.abs(z) < 1).mean()
      require(abs(inside - 0.6827) <= 7 * np.sqrt(0.217 / size),
              'core %d: %g of numbers are within one deviation', k, inside)
      if size >= 10000:
        require(np.abs(z).max() > 2.6, 'core %d is truncated', k)
  else:
    second, first = np.ones((bs, 1, 1)), np.ones((bs, 1))
    noise, total = 1.0, float(bs)
    for c in cores:
      size = c.shape[2]
      second = np.einsum('bij,bins->bjns', second, c)
      second = np.einsum('bjns,bjnt->bst', second, c) / size
      first = np.einsum('bi,bis->bs', first, c.mean(2))
      noise *= 1 + 2.0 / size
      total *= size
    second = second.mean() / std ** 2
    first = first.mean() / std
    err = np.sqrt((noise - 1) / bs)
    require(abs(second - 1) <= 7 * err, 'deviation of entries is %g instead '
            'of %g (relative variance %g +- %g)', np.sqrt(second) * std, std,
            second, err)
    require(abs(first) <= 7.0 ** d / np.sqrt(total), 'mean of entries is %g '
            'deviations', first)
  # Independence.
  for k, c in enumerate(cores):
    half = c.shape[0] // 2
    pairs = []
    if half:
      pairs.append((c[:half], c[half:2 * half], 'halves of the batch'))
      pairs.append((c[:1], c[-1:], 'first and last elements'))
    half = c.shape[2] // 2
    if half:
      pairs.append((c[:, :, :half], c[:, :, half:2 * half], 'indices'))
    for l in range(k):
      if cores[l].size and c.size:
        size = min(c.size, cores[l].size)
        pairs.append((c.reshape(-1)[:size], cores[l].reshape(-1)[:size],
                      'cores %d and %d' % (l, k)))
    for a, b, what in pairs:
      a, b = a.reshape(-1), b.reshape(-1)
      if a.size < 100:
        continue
      require(abs(correlation(a, b)) <= 7 / np.sqrt(a.size),
              'core %d: correlation %g of %s', k, correlation(a, b), what)


def gen_repeat(draw):
  case = gen_object(draw)
  case['dt'] = 'float64'  # In float32 equal numbers are not rare.
  return case


@CHECK.op('repeat', gen_repeat, quick=200)
def repeat(case):
  """Repeated calls are different draws."""
  a = structure(build(case), case)
  b = structure(build(case), case)
  for k in range(len(a)):
    require(not np.any(a[k] == b[k]), 'core %d is repeated in the second call',
            k)
  flat = np.concatenate([c.reshape(-1) for c in a])
  require(len(np.unique(flat)) == len(flat), 'numbers are repeated')


def gen_mean(draw):
  case = gen_object(draw)
  case['family'] = 'entries'
  case['std'] = 1.0
  case['mean'] = gen.pick(draw, 1.0, -0.5, 1e-3)
  return case


@CHECK.op('nonzero-mean', gen_mean, quick=60)
def nonzero_mean(case):
  """Mean of entries is documented as not supported: must not be ignored."""
  must_raise(lambda: build(case), NotImplementedError, 'non-zero mean')
