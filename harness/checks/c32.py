"""C32: results depend on tensors and not on the cores that represent them."""
import numpy as np
import t3f
from harness import catalog, core, gen, tangent, views
from harness.core import require

CHECK = core.Check('C32', rule=(
    'A case counts if some TT-argument has at least two cores and a TT-rank '
    'above 1 and is not zero; distinct by JSON.'),
    nontrivial=lambda c: any(core.spec_nontrivial(s) for s in
                             core.specs_in(c)) or c['f'].startswith('kron'),
    assumptions=['only results of one operation for two representations are '
                 'compared; the other properties judge the values'])

# About cores rather than tensors, or without TT-arguments.
LEFT_OUT = ('cores-reg', 'shapes', 'lazy-shapes', 'batch_size', 'to_tt_tensor',
            'to_tt_matrix')
# The tangent space at an argument.
POINT = {'project': 'y', 'project_sum': 'y', 'project_matmul': 'y',
         'pairwise-projected': 'y', 'add_n-projected': 'y', 'deltas': 'y',
         'gradients': 'x', 'hessian': 'x', 'left-frame-copy': 'x'}
HOWS = ('gauge', 'gauge', 'scale', 'scale', 'pad', 'orthogonal', 'partly')


def gen_case(draw):
  case = catalog.gen_case(draw, [k for k in sorted(catalog.ENTRIES)
                                 if k not in LEFT_OUT])
  for s in case['tt'].values():
    s['dtype'] = 'float64'
  for s in case['arr'].values():
    if 'dtype' in s:
      s['dtype'] = 'float64'
  f = case['f']
  if f in ('approximate-add_n', 'reduce_sum_batch'):
    case['p']['cap'] = 60
  hows = HOWS if not f.startswith('kron') else ('scale',)
  case['how'] = {k: gen.pick(draw, *hows) for k in sorted(case['tt'])}
  for k in case['how']:
    if POINT.get(f) == k and case['how'][k] in ('pad', 'partly'):
      # Another rank is another manifold.
      case['how'][k] = 'gauge'
  if f == 'concat':
    # The TT-ranks have to coincide.
    for k in case['how']:
      case['how'][k] = gen.pick(draw, 'gauge', 'scale')
  return case


def represent(x, how, rng, f):
  """Other cores of the same tensor."""
  d = len(x.cores)
  inner = list(range(1, d))
  if how == 'gauge':
    return views.gauge(x, rng, inner)
  if how == 'scale':
    # Norms below the documented epsilon are clamped by renormalize; factors
    # of Kronecker products have to be positive-definite and not too large.
    mild = f == 'renormalize' or f.startswith('kron') or rng.randint(3) == 0
    return views.rescale(x, rng, f != 'kron-cholesky', 6 if mild else 30)
  if how == 'orthogonal':
    return views.gauge(x, rng, inner, 0.0)
  if how == 'partly':
    return views.partly(x, rng)
  some = [k for k in inner if rng.randint(2)] or inner[:1]
  return views.pad(x, rng, some)


def dense(r):
  return core.contract(core.result_cores(r), r.is_tt_matrix(),
                       isinstance(r, t3f.TensorTrainBatch))


def gap(x, cap):
  """The smallest relative distance of singular values at the caps."""
  res = 1.0
  shape = [a * b for a, b in zip(x.n, x.m or [1] * len(x.n))]
  for item in ([x.d] if x.bs is None else x.d):
    z = tangent.interleave(item, x.n, x.m)
    for k in range(1, len(shape)):
      s = np.linalg.svd(z.reshape(core.prod(shape[:k]), -1), compute_uv=False)
      c = cap[k] if isinstance(cap, list) else cap
      if c < len(s):
        res = min(res, (s[c - 1] - s[c]) / max(s[0], 1e-300))
  return res


def compare(a, b, scale, what):
  a, b = catalog.flatten(a), catalog.flatten(b)
  require(len(a) == len(b), '%s: number of results', what)
  for p, q in zip(a, b):
    require(core.is_tt(p) == core.is_tt(q), '%s: kinds', what)
    if core.is_tt(p):
      require(type(p) is type(q), '%s: kinds', what)
      u, v = core.check_queries(p, what), core.check_queries(q, what)
      for k in ('n', 'm', 'bs', 'dtype'):
        require(u[k] == v[k], '%s: %s is %s and %s', what, k, u[k], v[k])
      p, q = dense(p), dense(q)
    else:
      p, q = core.to_np(p), core.to_np(q)
      require(p.dtype == q.dtype, '%s: dtypes', what)
    core.close(q, p, scale + np.max(np.abs(p), initial=0), 'float64', what)


def tolerance(case, tts, others, arrays):
  """The scale of round-off; None if the answer is not well defined."""
  scale = max(catalog.scale_of(case, tts, arrays),
              catalog.scale_of(case, others, arrays)) * 10
  f = case['f']
  if case['p'].get('to') == 'float32':
    scale *= 1e6
  if f in POINT:
    cond = max(tangent.Space(tts[POINT[f]]).cond,
               tangent.Space(others[POINT[f]]).cond)
    if not cond < 1e4:
      return None
    scale *= cond
  if f == 'round-cut':
    distance = gap(tts['x'], case['p']['cap'])
    if distance < 1e-3:
      return None
    scale /= distance
  return scale


@CHECK.op('catalog', gen_case, quick=3500)
def catalog_(case):
  tts, arrays = catalog.arguments(case)
  rng = np.random.RandomState(case['seed'] % 2 ** 32)
  others = {k: represent(x, case['how'][k], rng, case['f'])
            for k, x in sorted(tts.items())}
  scale = tolerance(case, tts, others, arrays)
  if scale is None:
    raise core.Skip('not well defined')
  objs = lambda t: {k: x.tt for k, x in t.items()}
  a = catalog.call(case, objs(tts), arrays)
  b = catalog.call(case, objs(others), arrays)
  compare(a, b, scale, '%s for %s cores' % (case['f'], '/'.join(
      case['how'][k] for k in sorted(case['how']))))


def gen_cut(draw):
  case = catalog.gen_case(draw, ('round-cut',))
  case['tt']['x'] = gen.tt(draw, bs=gen.pick(draw, 'no', 'no', 'any'), mind=3,
                           maxd=6, maxr=5, dt='float64', fills=('normal',))
  case['p']['cap'] = gen.integer(draw, 1, 3)
  case['how'] = {'x': gen.pick(draw, 'gauge', 'scale', 'pad', 'partly',
                               'partly')}
  return case


@CHECK.op('truncation', gen_cut, quick=400)
def truncation(case):
  """Truncation is unique if the singular values are separated."""
  catalog_(case)


# ------------------------------------------ representations made by the library


MAKERS = ('round', 'orthogonalize', 'orthogonalize-left', 'renormalize',
          'add-zero', 'minus-minus', 'twice-half', 'to_tt')


def gen_own(draw):
  names = ('full', 'flat_inner', 'norm2', 'norm2-diff', 'round', 'mul', 'add',
           'index', 'gather', 'matmul', 'transpose', 'gram', 'pairwise',
           'bilinear_form', 'orthogonalize', 'project', 'l2')
  case = catalog.gen_case(draw, names)
  for s in list(case['tt'].values()) + list(case['arr'].values()):
    if 'dtype' in s:
      s['dtype'] = 'float64'
  case['how'] = {k: gen.pick(draw, *MAKERS) for k in sorted(case['tt'])}
  if case['f'] == 'project':
    case['how']['y'] = gen.pick(draw, 'orthogonalize', 'renormalize')
  for k, s in case['tt'].items():
    if s['bs'] is not None and case['how'][k] in ('orthogonalize-left',
                                                  'to_tt'):
      case['how'][k] = 'round'
    if case['how'][k] == 'renormalize' and s['fill'] not in catalog.MILD:
      # Norms below the documented epsilon are clamped.
      case['how'][k] = 'orthogonalize'
  return case


def remake(x, how):
  tt = x.tt
  if how == 'round':
    return t3f.round(tt)
  if how == 'orthogonalize':
    return t3f.orthogonalize_tt_cores(tt)
  if how == 'orthogonalize-left':
    return t3f.orthogonalize_tt_cores(tt, left_to_right=False)
  if how == 'renormalize':
    return t3f.renormalize_tt_cores(tt)
  if how == 'add-zero':
    return tt + 0. * tt
  if how == 'minus-minus':
    return -(-tt)
  if how == 'twice-half':
    return 0.5 * (tt + tt)
  if x.matrix:
    return t3f.to_tt_matrix(x.d, (x.n, x.m), max_tt_rank=1000)
  return t3f.to_tt_tensor(x.d, max_tt_rank=1000)


@CHECK.op('own', gen_own, quick=1000)
def own(case):
  """Operations that keep the tensor are followed by other operations."""
  tts, arrays = catalog.arguments(case)
  scale = tolerance(case, tts, tts, arrays)
  if scale is None:
    raise core.Skip('not well defined')
  a = catalog.call(case, {k: x.tt for k, x in tts.items()}, arrays)
  b = catalog.call(case, {k: remake(x, case['how'][k])
                          for k, x in sorted(tts.items())}, arrays)
  compare(a, b, scale * 10, '%s after %s' % (case['f'], '/'.join(
      case['how'][k] for k in sorted(case['how']))))
