"""C03: constructors accept exactly the consistent cores."""
import numpy as np
import tensorflow as tf
import t3f
from harness import core, gen
from harness.core import require
from harness.checks import c02

CHECK = core.Check('C03', rule=(
    'Every case is a constructor call; it counts if there are at least two '
    'cores and some TT-rank is above 1; cases are distinct if their JSON '
    'differs.'), nontrivial=lambda c: len(c['x']['n']) > 1 and
    max(c['x']['r']) > 1)


@CHECK.op('valid', c02.gen_construct, quick=1500)
def valid(case):
  s = case['x']
  cores, obj = c02.construct(case)
  kind = t3f.TensorTrain if s['bs'] is None else t3f.TensorTrainBatch
  require(isinstance(obj, kind), 'wrong type')
  core.check_structure(obj, s['m'] is not None, s['n'], s['m'], s['bs'],
                       s['dtype'])
  for a, b in zip(core.result_cores(obj), cores):
    require(np.array_equal(a, b), 'a core was changed')


FAULTS = ('rank', 'rank', 'first', 'last', 'dtype', 'axes', 'all-axes', 'mode',
          'long-shape', 'kind', 'ranks', 'batch', 'declared-batch',
          'short-shape', 'short-ranks')


def gen_bad(draw):
  fault = gen.pick(draw, *FAULTS)
  mind = 2 if fault in ('rank', 'dtype', 'axes', 'batch') else 1
  bs = 'yes' if fault in ('batch', 'declared-batch') else 'any'
  return dict(x=gen.tt(draw, size=300, mind=mind, bs=bs), fault=fault,
              k=gen.integer(draw, 0, 20), delta=gen.pick(draw, 1, 2),
              shape=gen.pick(draw, 'tuple', 'shape', 'array'),
              ranks=gen.pick(draw, 'list', 'shape', 'array'),
              feed=gen.pick(draw, 'tensor', 'array'),
              also=gen.flag(draw))


@CHECK.op('invalid', gen_bad, quick=6000)
def invalid(case):
  s, fault, k, delta = case['x'], case['fault'], case['k'], case['delta']
  d = len(s['n'])
  cores = core.np_cores(s)
  off = 0 if s['bs'] is None else 1
  kw = {}
  if case['also'] and fault not in ('axes', 'all-axes'):
    # Correct metadata does not help.
    kw['tt_ranks'] = c02.ranks_notation(s['r'], case['ranks'])
  def grow(c, axis, extra=delta):
    pad = [(0, 0)] * c.ndim
    pad[axis] = (0, extra)
    return np.pad(c, pad, mode='edge')
  if fault == 'rank':
    left = (k + delta) % 2
    k = k % (d - 1)
    if left:
      cores[k] = grow(cores[k], -1)
    else:
      cores[k + 1] = grow(cores[k + 1], off)
  elif fault == 'first':
    cores[0] = grow(cores[0], off)
  elif fault == 'last':
    cores[-1] = grow(cores[-1], -1)
  elif fault == 'dtype':
    other = 'float32' if s['dtype'] == 'float64' else 'float64'
    cores[k % d] = cores[k % d].astype(other)
  elif fault == 'axes':
    c = cores[k % d]
    cores[k % d] = c[..., None, :] if s['m'] is None else c.sum(axis=-2)
    if s['m'] is not None:
      # Keep ranks consistent: only the number of axes is wrong.
      require(cores[k % d].ndim == c.ndim - 1, 'harness')
  elif fault == 'all-axes':
    extra = 2 if s['m'] is None else 1
    cores = [c.reshape(c.shape[:-1] + (1,) * extra + c.shape[-1:])
             for c in cores]
  elif fault == 'mode':
    n, m = list(s['n']), None if s['m'] is None else list(s['m'])
    which = n if m is None or (k // d) % 2 == 0 else m
    which[k % d] += delta
    kw['shape'] = c02.shape_notation(n, m, case['shape'])
  elif fault == 'long-shape':
    n = list(s['n']) + [delta]
    m = None if s['m'] is None else list(s['m']) + [1]
    kw['shape'] = c02.shape_notation(n, m, case['shape'])
  elif fault == 'short-shape':
    if d == 1:
      raise core.Skip()
    n = list(s['n'])[:-1]
    m = None if s['m'] is None else list(s['m'])[:-1]
    kw['shape'] = c02.shape_notation(n, m, case['shape'])
  elif fault == 'short-ranks':
    kw['tt_ranks'] = c02.ranks_notation(s['r'][:-1], case['ranks'])
  elif fault == 'kind':
    if s['m'] is None:
      # Chosen to coincide with the right ranks.
      kw['shape'] = c02.shape_notation(s['n'], s['r'][1:], case['shape'])
    else:
      kw['shape'] = c02.shape_notation(s['n'], None, case['shape'])
  elif fault == 'ranks':
    r = list(s['r'])
    r[k % (d + 1)] += delta
    kw['tt_ranks'] = c02.ranks_notation(r, case['ranks'])
  elif fault == 'batch':
    cores[k % d] = grow(cores[k % d], 0)
    if case['also']:
      kw['batch_size'] = s['bs']
  elif fault == 'declared-batch':
    kw['batch_size'] = s['bs'] + delta
  feed = cores if case['feed'] == 'array' else [tf.constant(c) for c in cores]
  cls = t3f.TensorTrain if s['bs'] is None else t3f.TensorTrainBatch
  core.must_raise(lambda: cls(feed, **kw), ValueError,
                  'constructor with fault %s' % fault)
