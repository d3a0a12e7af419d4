"""C20: approximate sums."""
import numpy as np
import tensorflow as tf
import t3f
from harness import core, gen, tangent
from harness.core import Arg, require

CHECK = core.Check('C20', rule=(
    'A case counts if there are at least two summands with at least two cores '
    'and a TT-rank above 1; distinct by JSON.'),
    nontrivial=lambda c: c['k'] > 1 and len(c['base'][0]['n']) > 1 and
    max(max(b['r']) for b in c['base']) > 1,
    assumptions=[
        'NumPy SVD of the unfoldings of exact partial sums gives their '
        'distances to low-rank tensors; distances are 1-Lipschitz, which '
        'bounds the error of the documented binary tree of roundings',
        'the cap is promised for two summands and more: a single summand is '
        'returned as it is'])


def gen_family(draw, bs='no', size=200):
  """k summands, each one a combination of few base objects."""
  k = gen.pick(draw, 1, 2, 2, 3, 3, 4, 5, 6, 7, 8, 9)
  x = gen.tt(draw, bs=bs, size=size, maxr=3)
  style = gen.pick(draw, 'independent', 'multiples', 'few')
  num = {'independent': k, 'multiples': 1, 'few': min(k, 2)}[style]
  base = [x]
  for _ in range(num - 1):
    r = x['r'] if bs == 'no' else None
    b = gen.like(draw, x, bs=x['bs'], maxr=3)
    if r is not None and gen.flag(draw):
      b['r'] = list(r)
    base.append(b)
  ids = list(range(k)) if style == 'independent' else [
      gen.integer(draw, 0, num - 1) for _ in range(k)]
  coefs = [1.0 if style == 'independent' else
           gen.pick(draw, 1.0, -1.0, 2.0, 0.5) for _ in range(k)]
  return dict(k=k, base=base, ids=ids, coefs=coefs,
              cap=gen.pick(draw, 1, 2, 3, 4, 5, 6, 8, 12, 30),
              cap_np=gen.flag(draw))


def cap_of(case):
  return np.int64(case['cap']) if case['cap_np'] else case['cap']


def unfolding_tails(x, n, m, cap):
  """Distances of unfoldings to matrices of rank cap."""
  z = tangent.interleave(x, n, m)
  res = []
  for k in range(1, z.ndim):
    s = np.linalg.svd(z.reshape(core.prod(z.shape[:k]), -1), compute_uv=False)
    res.append(np.sqrt((s[cap:] ** 2).sum()))
  return np.array(res)


def tree_bound(values, scales, n, m, cap, dtype):
  """Bound of the error of rounded sums in the order of a binary tree."""
  eps = core.TOL[dtype] * (1 + len(n))
  level = [(v, 0.0, s) for v, s in zip(values, scales)]
  while len(level) > 1:
    new = []
    for i in range(0, len(level), 2):
      if i + 1 == len(level):
        v, e, s = level[i]
      else:
        v = level[i][0] + level[i + 1][0]
        s = level[i][2] + level[i + 1][2]
        e = level[i][1] + level[i + 1][1]
      t = unfolding_tails(v, n, m, cap)
      if i + 1 < len(level) or np.any(t > 0):
        e = e + np.sqrt(((t + e) ** 2).sum()) + eps * s
      new.append((v, e, s))
    level = new
  return level[0][1] + eps * level[0][2]


def judge(res, values, scales, x, cap, bs, what):
  """values: for each element of the result, the list of summands."""
  max_r = None
  if len(values[0]) > 1:
    max_r = [1] + [cap] * (len(x['n']) - 1) + [1]
  cores, _ = core.check_structure(res, x['m'] is not None, x['n'], x['m'], bs,
                                  x['dtype'], what, max_r=max_r)
  got = core.contract(cores, x['m'] is not None, bs is not None)
  got = [got] if bs is None else list(got)
  for j, (g, vs, ss) in enumerate(zip(got, values, scales)):
    err = np.linalg.norm(g - sum(vs))
    bound = tree_bound(vs, ss, x['n'], x['m'], cap, x['dtype'])
    require(np.isfinite(err) and err <= bound, '%s, element %d: error %.5g, '
            'bound %.5g, norm %.5g', what, j, err, bound,
            np.linalg.norm(sum(vs)))


def scaled(cores, c):
  return [cores[0] * np.asarray(c, cores[0].dtype)] + list(cores[1:])


def gen_add(draw):
  case = gen_family(draw, bs=gen.pick(draw, None, None, None, 1, 2, 3))
  case['tuple'] = gen.flag(draw)
  return case


@CHECK.op('add', gen_add, quick=700)
def add(case):
  base = [Arg(b) for b in case['base']]
  x = case['base'][0]
  bs = x['bs']
  objs = []
  for i, c in zip(case['ids'], case['coefs']):
    objs.append(core.make_tt(scaled(base[i].cores, c), bs is not None))
  arg = tuple(objs) if case['tuple'] else objs
  res = t3f.approximate.add_n(arg, cap_of(case))
  require(len(arg) == case['k'], 'the list of arguments was changed')
  item = lambda v, j: v if bs is None else v[j]
  values = [[item(base[i].d, j) * c for i, c in zip(case['ids'], case['coefs'])]
            for j in range(bs or 1)]
  scales = [[item(base[i].q, j) * abs(c) for i, c in
             zip(case['ids'], case['coefs'])] for j in range(bs or 1)]
  judge(res, values, scales, x, case['cap'], bs, 'add_n')


def gen_reduce(draw):
  case = gen_family(draw, bs='no')
  r = [max(b['r'][i] for b in case['base'])
       for i in range(len(case['base'][0]['r']))]
  for b in case['base']:
    b['r'] = list(r)
  k = case['k']
  c = lambda: gen.pick(draw, 0.0, 1.0, -1.0, 0.5, 3.0, -7.25, 100.0)
  kind = gen.pick(draw, 'none', 'vector', 'matrix', 'matrix')
  case['coef'] = None
  if kind == 'vector':
    case['coef'] = [c() for _ in range(k)]
  elif kind == 'matrix':
    cols = gen.integer(draw, 1, 5)
    case['coef'] = [[c() for _ in range(cols)] for _ in range(k)]
  case['form'] = gen.pick(draw, 'list', 'array', 'tensor')
  return case


@CHECK.op('reduce', gen_reduce, quick=900)
def reduce(case):
  base = [Arg(b) for b in case['base']]
  x = case['base'][0]
  items = [scaled(base[i].cores, c) for i, c in zip(case['ids'], case['coefs'])]
  batch = core.make_tt([np.stack(cs) for cs in zip(*items)], True)
  dense = [base[i].d * c for i, c in zip(case['ids'], case['coefs'])]
  q = [base[i].q * abs(c) for i, c in zip(case['ids'], case['coefs'])]
  w, kw = case['coef'], {}
  if w is not None:
    kw['coef'] = w
    if case['form'] == 'array':
      kw['coef'] = np.array(w, x['dtype'])
    elif case['form'] == 'tensor':
      kw['coef'] = tf.constant(w, dtype=x['dtype'])
  res = t3f.approximate.reduce_sum_batch(batch, cap_of(case), **kw)
  w = np.ones(case['k']) if w is None else np.array(w)
  bs = None if w.ndim == 1 else w.shape[1]
  cols = [w] if bs is None else list(w.T)
  values = [[a * v for a, v in zip(col, dense)] for col in cols]
  scales = [[abs(a) * v for a, v in zip(col, q)] for col in cols]
  judge(res, values, scales, x, case['cap'], bs, 'reduce_sum_batch')


def gen_bad(draw):
  case = gen_reduce(draw)
  case['rows'] = gen.pick(draw, case['k'] + 1, case['k'] + 2,
                          max(case['k'] - 1, 0) or case['k'] + 1)
  case['cols'] = gen.integer(draw, 1, 3)
  return case


@CHECK.op('bad-coef', gen_bad, quick=60)
def bad_coef(case):
  """Coefficients that do not fit the batch are rejected."""
  base = Arg(case['base'][0])
  batch = core.make_tt([np.stack([c] * case['k']) for c in base.cores], True)
  f = t3f.approximate.reduce_sum_batch
  rows, cols = case['rows'], case['cols']
  core.must_raise(lambda: f(batch, 3, coef=np.ones((rows, cols), base.dtype)),
                  ValueError, 'wrong number of rows')
  core.must_raise(lambda: f(batch, 3, coef=np.ones((case['k'], 1, 1),
                                                   base.dtype)),
                  ValueError, '3-d coefficients')
